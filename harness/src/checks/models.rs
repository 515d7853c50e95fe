//! Reference models for images (C06), ports (C07), volumes (C08), durations (C14), scalars and
//! lists (C16), quantities (C17) and platforms (C22).
use crate::mon::Case;
use crate::recog::{self, Rec};
use crate::rng::Rng;
use crate::strs as g;
use compose_spec::service::blkio_config::Weight;
use compose_spec::service::deploy::resources::{Count, Cpus};
use compose_spec::service::image::{Digest, Name, Tag, TagOrDigest};
use compose_spec::service::platform;
use compose_spec::service::ports::{self, Port, Protocol, Range, ShortPort, ShortRanges};
use compose_spec::service::volumes::mount::{
    Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions,
};
use compose_spec::service::volumes::{self, HostPath, SELinux, ShortOptions, ShortVolume, Source};
use compose_spec::service::{
    AbsolutePath, ByteValue, CpuSet, Image, Limit, OomScoreAdj, Percent, Platform,
};
use compose_spec::{
    duration, ExtensionKey, Extensions, Identifier, ItemOrList, ListOrMap, MapKey, Number, Service, ShortOrLong,
    StringOrNumber, Value, YamlValue,
};
use indexmap::{IndexMap, IndexSet};
use std::collections::BTreeSet;
use std::time::Duration;

// ---- C06 -----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
struct ImgModel {
    registry: Option<String>,
    path: String,
    tag: Option<String>,
    digest: Option<String>,
}
impl ImgModel {
    fn name(&self) -> String {
        match &self.registry {
            Some(r) if self.path.is_empty() => r.clone(),
            Some(r) => format!("{r}/{}", self.path),
            None => self.path.clone(),
        }
    }
    fn text(&self) -> String {
        let mut s = self.name();
        if let Some(t) = &self.tag {
            s = s + ":" + t;
        }
        if let Some(d) = &self.digest {
            s = s + "@" + d;
        }
        s
    }
    fn split_name(n: &str) -> (Option<String>, String) {
        match n.split_once('/') {
            Some((r, p)) if r.contains('.') => (Some(r.to_owned()), p.to_owned()),
            _ => (None, n.to_owned()),
        }
    }
}
fn img_agree(c: &mut Case, what: &str, i: &Image, m: &ImgModel) -> bool {
    let t = m.text();
    let mut bad: Option<(&str, String)> = None;
    let mut ck = |k: &'static str, a: String, b: String| {
        if a != b && bad.is_none() {
            bad = Some((k, format!("{a} but expected {b}")));
        }
    };
    ck("text", format!("{:?}", i.as_str()), format!("{t:?}"));
    ck("registry", format!("{:?}", i.registry()), format!("{:?}", m.registry.as_deref()));
    ck("name", format!("{:?}", i.name()), format!("{:?}", m.name()));
    ck("tag", format!("{:?}", i.tag()), format!("{:?}", m.tag.as_deref()));
    ck("digest", format!("{:?}", i.digest()), format!("{:?}", m.digest.as_deref()));
    ck("as_name", format!("{:?} {:?}", i.as_name().as_ref(), i.as_name().registry()), format!("{:?} {:?}", m.name(), m.registry.as_deref()));
    ck("as_tag", format!("{:?}", i.as_tag().map(|t| t.into_inner().to_owned())), format!("{:?}", m.tag));
    ck("as_digest", format!("{:?}", i.as_digest().map(|t| t.into_inner().to_owned())), format!("{:?}", m.digest));
    let td = match i.as_tag_or_digest() {
        Some(TagOrDigest::Tag(t)) => format!(":{t}"),
        Some(TagOrDigest::Digest(t)) => format!("@{t}"),
        None => String::new(),
    };
    ck("as_tag_or_digest", td, t[m.name().len()..].to_owned());
    match Image::parse(t.as_str()) {
        Err(e) => ck("parse", format!("parsing {t:?} fails: {e}"), String::new()),
        Ok(p) => {
            ck("equal to parsed", format!("{}", *i == p), "true".into());
            ck("parsed registry", format!("{:?}", p.registry()), format!("{:?}", i.registry()));
            ck("parsed name", format!("{:?}", p.name()), format!("{:?}", i.name()));
            ck("parsed tag", format!("{:?}", p.tag()), format!("{:?}", i.tag()));
            ck("parsed digest", format!("{:?}", p.digest()), format!("{:?}", i.digest()));
            ck("internal state", format!("{i:?}"), format!("{p:?}"));
        }
    }
    let (n, td) = i.as_parts();
    let again = Image::from_parts(n, td);
    ck("from_parts(as_parts)", format!("{again:?}"), format!("{i:?}"));
    let conv: (Name, Option<TagOrDigest>) = i.into();
    let conv: Image = conv.into();
    ck("From parts", format!("{conv:?}"), format!("{i:?}"));
    match bad {
        Some((k, d)) => {
            c.fail(format!("image:{what}:{k}"), format!("after {what}: {k}: {d} (image {:?}, model {m:?})", i.as_str()));
            false
        }
        None => true,
    }
}
/// A name with a path after the registry (a registry alone is ambiguous with a tag).
fn gen_img_name(r: &mut Rng) -> String {
    let n = g::g_image_name(r);
    if r.chance(1, 600) {
        // positions of more than 16 bits
        return r.string_of("abz019", 65_520, 65_545) + &n;
    }
    n
}
pub fn image_history(c: &mut Case) {
    let mut r = c.rng.clone();
    let n0 = gen_img_name(&mut r);
    let (registry, path) = ImgModel::split_name(&n0);
    let mut m = ImgModel { registry, path, tag: None, digest: None };
    match r.below(3) {
        0 => m.tag = Some(g::g_tag(&mut r)),
        1 => m.digest = Some(g::g_digest(&mut r)),
        _ => {}
    }
    let mut log = vec![m.text()];
    let name = Name::new(&n0);
    let Ok(name) = name else {
        c.fail("image:name rejected", format!("Name::new({n0:?}) failed"));
        return;
    };
    let t0 = m.text();
    let mut img = if r.bool() {
        match Image::parse(t0.clone()) {
            Ok(i) => i,
            Err(e) => {
                c.fail("image:parse rejected", format!("{t0:?}: {e}"));
                return;
            }
        }
    } else {
        let td = match (&m.tag, &m.digest) {
            (Some(t), _) => Some(TagOrDigest::Tag(Tag::new(t).unwrap())),
            (_, Some(d)) => Some(TagOrDigest::Digest(Digest::new(d).unwrap())),
            _ => None,
        };
        match (td, r.bool()) {
            (Some(td), true) => Image::from((name, td)),
            (None, true) => Image::from(name),
            (td, false) => Image::from_parts(name, td),
        }
    };
    if !img_agree(c, "construction", &img, &m) {
        return;
    }
    let steps = r.range(1, 12);
    for _ in 0..steps {
        let op = r.below(9);
        let what;
        match op {
            0 | 1 => {
                // lengths vary widely, including equal ones
                let reg = if r.chance(1, 4) && m.registry.is_some() {
                    let l = m.registry.clone().unwrap();
                    l.chars().map(|x| if x.is_ascii_lowercase() { 'q' } else { x }).collect()
                } else {
                    g::g_registry(&mut r)
                };
                what = "set_registry(Some)";
                log.push(format!("set_registry {reg}"));
                img.set_registry(Some(Name::new(&reg).unwrap()));
                m.registry = Some(reg);
            }
            2 => {
                what = "set_registry(None)";
                log.push("set_registry None".into());
                img.set_registry(None);
                m.registry = None;
            }
            3 | 4 => {
                let n = gen_img_name(&mut r);
                what = "set_name";
                log.push(format!("set_name {n}"));
                img.set_name(Name::new(&n).unwrap());
                let (a, b) = ImgModel::split_name(&n);
                m.registry = a;
                m.path = b;
            }
            5 => {
                let t = r.bool().then(|| g::g_tag(&mut r));
                what = if t.is_some() { "set_tag(Some)" } else { "set_tag(None)" };
                log.push(format!("set_tag {t:?}"));
                img.set_tag(t.as_ref().map(|t| Tag::new(t).unwrap()));
                m.tag = t;
                m.digest = None;
            }
            6 => {
                let t = r.bool().then(|| g::g_digest(&mut r));
                what = if t.is_some() { "set_digest(Some)" } else { "set_digest(None)" };
                log.push(format!("set_digest {t:?}"));
                img.set_digest(t.as_ref().map(|t| Digest::new(t).unwrap()));
                m.digest = t;
                m.tag = None;
            }
            7 => {
                what = "set_tag_or_digest";
                m.tag = None;
                m.digest = None;
                match r.below(3) {
                    0 => {
                        let t = g::g_tag(&mut r);
                        log.push(format!("set_tag_or_digest tag {t}"));
                        img.set_tag_or_digest(Some(Tag::new(&t).unwrap().into()));
                        m.tag = Some(t);
                    }
                    1 => {
                        let t = g::g_digest(&mut r);
                        log.push(format!("set_tag_or_digest digest {t}"));
                        img.set_tag_or_digest(Some(Digest::new(&t).unwrap().into()));
                        m.digest = Some(t);
                    }
                    _ => {
                        log.push("set_tag_or_digest None".into());
                        img.set_tag_or_digest(None);
                    }
                }
            }
            _ => {
                // a copy is independent of the original
                what = "clone";
                let mut k = img.clone();
                k.set_tag(None);
                k.set_name(Name::new("other/name").unwrap());
                log.push("clone".into());
            }
        }
        c.event(what);
        if !img_agree(c, what, &img, &m) {
            c.event("aborted history");
            return;
        }
        c.seen(&(what, m.text()));
    }
    c.sample(|| log.join("; "));
}
pub fn image_parse(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..10 {
        let s = {
            let a = g::g_image(&mut r);
            if r.bool() { g::mutate(&mut r, &a, "az0:/@.") } else { a }
        };
        if recog::image(&s) != Rec::A {
            continue;
        }
        let (n, t, d) = recog::image_split(&s);
        let reg = n.split('/').next().filter(|p| p.contains('.'));
        let Ok(i) = Image::parse(s.as_str()) else {
            c.fail("image:parse", format!("{s:?} is rejected"));
            continue;
        };
        c.seen(&s);
        c.event("parsed images");
        let got = (i.registry(), i.name(), i.tag(), i.digest());
        let want = (reg, n, t, d);
        c.check(got == want, "image:parse parts", || format!("{s:?}: parts {got:?}, expected {want:?}"));
    }
}

// ---- C07 -----------------------------------------------------------------------------------
fn rng_range(r: &mut Rng) -> (u16, u16) {
    match r.below(8) {
        0 if r.chance(1, 4) => (0, 65535),
        0 | 1 => (65535, 65535),
        2 => (0, 0),
        3 => (0, r.range(0, 5) as u16),
        4 => {
            let k = r.range(0, 5) as u16;
            (65535 - k, 65535)
        }
        5 => {
            let a = r.range(0, 65535) as u16;
            (a, a)
        }
        6 if r.chance(1, 6) => {
            // a long one
            let n = r.range(31, 65535) as u16;
            let a = r.range(0, u64::from(65535 - n)) as u16;
            (a, a + n)
        }
        _ => {
            let a = r.range(0, 65500) as u16;
            (a, a + r.range(0, 30) as u16)
        }
    }
}
fn mk_range(a: u16, b: u16) -> Option<Range> {
    Range::new(a, if a == b { None } else { Some(b) }).ok()
}
fn near_u16(r: &mut Rng, a: u16, b: u16) -> u16 {
    match r.below(4) {
        0 | 1 => *r.pick(&[a, b]),
        2 => r.pick(&[a, b]).saturating_add(r.below(3) as u16).saturating_sub(1),
        _ => *r.pick(&[0, 1, u16::MAX, a / 2 + b / 2]),
    }
}
pub fn port_ranges(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..6 {
        let (x, y) = rng_range(&mut r);
        let (a, b) = if r.chance(1, 3) { (y, x) } else { (x, y) };
        let ok = a <= b;
        let ways: [(&str, Option<Range>); 6] = [
            ("Range::new", Range::new(a, Some(b)).ok()),
            ("TryFrom<(u16,u16)>", Range::try_from((a, b)).ok()),
            ("TryFrom<(u16,Option)>", Range::try_from((a, Some(b))).ok()),
            ("TryFrom<RangeInclusive>", Range::try_from(a..=b).ok()),
            ("parse", format!("{a}-{b}").parse().ok()),
            ("yaml", serde_yaml::from_value(YamlValue::String(format!("{a}-{b}"))).ok()),
        ];
        for (w, v) in &ways {
            c.event("range constructions");
            let Some(v) = v else {
                c.check(!ok, &format!("range:{w}:rejected"), || format!("{w} rejects {a}-{b}"));
                continue;
            };
            if !c.check(ok, &format!("range:{w}:reversed"), || format!("{w} accepts {a}-{b} as {v:?}")) {
                continue;
            }
            c.seen(&(a, b));
            let elems: Vec<u16> = (*v).into_iter().collect();
            let want: Vec<u16> = (a..=b).collect();
            c.check(elems == want, "range:iteration", || format!("{w} {a}-{b}: iterates {} ports {:?}..{:?}", elems.len(), elems.first(), elems.last()));
            c.check(v.start() == a, "range:start", || format!("{a}-{b}: start {}", v.start()));
            let e = if a == b { None } else { Some(b) };
            c.check(v.end() == e, "range:end", || format!("{w} {a}-{b}: end {:?}", v.end()));
            if b - a < 65535 {
                c.check(v.size() as usize == want.len(), "range:size", || format!("{a}-{b}: size {}", v.size()));
            }
            c.check(*v == (a..=b), "range:eq inclusive", || format!("{a}-{b} != {:?}", a..=b));
            for _ in 0..3 {
                let (x, y) = (near_u16(&mut r, a, b), near_u16(&mut r, a, b));
                c.check((*v == (x..=y)) == ((a, b) == (x, y)), "range:eq inclusive near", || format!("{a}-{b} == {x}..={y}"));
            }
            c.check((*v == a) == (a == b), "range:eq u16", || format!("{a}-{b} == {a}"));
            c.check(v.end() != Some(a) && (b == 65535 || *v != (a..=b + 1)), "range:eq inclusive other", || format!("{a}-{b}"));
            let text = if a == b { a.to_string() } else { format!("{a}-{b}") };
            c.check(v.to_string() == text, "range:text", || format!("{a}-{b}: {v}"));
            c.check(serde_yaml::to_value(v).ok() == Some(if a == b { YamlValue::from(a) } else { YamlValue::from(text) }), "range:yaml", || format!("{a}-{b}"));
            let k = r.range(0, 40) as u16;
            if b.checked_add(k).is_some() {
                let mut w2 = *v;
                w2 += k;
                let w1 = *v + k;
                c.check(w1 == w2 && w1 == ((a + k)..=(b + k)), "range:add", || format!("{a}-{b} + {k} = {w1:?}"));
            }
            if a.checked_sub(k).is_some() {
                let mut w2 = *v;
                w2 -= k;
                let w1 = *v - k;
                c.check(w1 == w2 && w1 == ((a - k)..=(b - k)), "range:sub", || format!("{a}-{b} - {k} = {w1:?}"));
            }
        }
        let oks: Vec<&Range> = ways.iter().filter_map(|w| w.1.as_ref()).collect();
        c.check(oks.windows(2).all(|w| w[0] == w[1]), "range:ways equal", || format!("{oks:?}"));
    }
}
pub fn short_ranges_history(c: &mut Case) {
    let mut r = c.rng.clone();
    // model: host option, container
    let (ca, cb) = rng_range(&mut r);
    let len = cb - ca;
    let host_len = |r: &mut Rng, len: u16| if r.chance(1, 3) { g::other_size(r, len) } else { len };
    let gen_host = |r: &mut Rng, len: u16| {
        let l = host_len(r, len);
        let a = r.range(0, u64::from(65535 - l)) as u16;
        (a, a + l)
    };
    let h = r.chance(2, 3).then(|| gen_host(&mut r, len));
    let ok = h.map_or(true, |h| h.1 - h.0 == len);
    let v = ShortRanges::new(h.map(|h| mk_range(h.0, h.1).unwrap()), mk_range(ca, cb).unwrap());
    let parsed: Option<ShortRanges> = match h {
        Some(h) => format!("{}-{}:{ca}-{cb}", h.0, h.1),
        None => format!("{ca}-{cb}"),
    }
    .parse()
    .ok();
    c.check(v.is_ok() == ok, "ranges:new", || format!("host {h:?} container {ca}-{cb}: accepted {}", v.is_ok()));
    c.check(parsed == v.as_ref().ok().copied(), "ranges:parse", || format!("host {h:?} container {ca}-{cb}: {parsed:?} vs {v:?}"));
    let Ok(mut v) = v else { return };
    if !ok {
        return;
    }
    let mut mh = h;
    let mut mc = (ca, cb);
    let mut log = format!("{v}");
    for _ in 0..r.range(0, 6) {
        match r.below(3) {
            0 => {
                let h = gen_host(&mut r, mc.1 - mc.0);
                let ok = h.1 - h.0 == mc.1 - mc.0;
                let prev = mh.map(|h| mk_range(h.0, h.1).unwrap());
                match v.replace_host(mk_range(h.0, h.1).unwrap()) {
                    Ok(p) => {
                        c.check(ok && p == prev, "ranges:replace_host", || format!("{log}; replace_host {h:?} accepted, previous {p:?}"));
                        mh = Some(h);
                    }
                    Err(_) => {
                        c.check(!ok, "ranges:replace_host rejected", || format!("{log}; replace_host {h:?}"));
                    }
                }
                log += &format!("; replace_host {h:?}");
            }
            1 => {
                let t = v.take_host();
                c.check(t == mh.map(|h| mk_range(h.0, h.1).unwrap()), "ranges:take_host", || log.clone());
                mh = None;
                log += "; take_host";
            }
            _ => {
                let l = mh.map_or_else(|| rng_range(&mut r).1 / 1000, |h| h.1 - h.0);
                let h = gen_host(&mut r, l);
                let ok = mh.map_or(true, |m| m.1 - m.0 == h.1 - h.0);
                let prev = mk_range(mc.0, mc.1).unwrap();
                match v.replace_container(mk_range(h.0, h.1).unwrap()) {
                    Ok(p) => {
                        c.check(ok && p == prev, "ranges:replace_container", || format!("{log}; replace_container {h:?} accepted, previous {p:?}"));
                        mc = h;
                    }
                    Err(_) => {
                        c.check(!ok, "ranges:replace_container rejected", || format!("{log}; {h:?}"));
                    }
                }
                log += &format!("; replace_container {h:?}");
            }
        }
        c.event("range edits");
        let host = v.host();
        c.check(host == mh.map(|h| mk_range(h.0, h.1).unwrap()) && v.container() == mk_range(mc.0, mc.1).unwrap(), "ranges:state", || format!("{log}: {v:?}, expected {mh:?} {mc:?}"));
    }
    // expansion
    let got: Vec<(Option<u16>, u16)> = v.into_iter().collect();
    let want: Vec<(Option<u16>, u16)> = (0..=(mc.1 - mc.0)).map(|k| (mh.map(|h| h.0 + k), mc.0 + k)).collect();
    c.seen(&(mh, mc));
    c.check(got == want, "ranges:pairs", || format!("{log}: {} pairs {:?} expected {} {:?}", got.len(), got.first(), want.len(), want.first()));
    c.sample(|| log);
}
pub fn short_port(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let s = {
            let s = g::g_short_port(&mut r);
            if r.chance(1, 3) { g::mutate(&mut r, &s, "0123456789:-/[].") } else { s }
        };
        let m = recog::short_port_vals(&s);
        if m.rec != Rec::A {
            continue;
        }
        let Ok(p) = s.parse::<ShortPort>() else {
            c.fail("port:parse", format!("{s:?} rejected"));
            continue;
        };
        c.seen(&s);
        c.event("short ports");
        c.sample(|| s.clone());
        c.check(p.host_ip == m.ip, "port:host_ip", || format!("{s:?}: {:?} expected {:?}", p.host_ip, m.ip));
        c.check(p.ranges.host() == m.host.and_then(|h| mk_range(h.0, h.1)), "port:host", || format!("{s:?}: {:?}", p.ranges.host()));
        c.check(Some(p.ranges.container()) == mk_range(m.container.0, m.container.1), "port:container", || format!("{s:?}: {:?}", p.ranges.container()));
        let pt = p.protocol.as_ref().map(ToString::to_string);
        c.check(pt == m.protocol, "port:protocol", || format!("{s:?}: {pt:?}"));
        let kind_ok = match m.protocol.as_deref() {
            None => p.protocol.is_none(),
            Some("tcp") => p.protocol == Some(Protocol::Tcp),
            Some("udp") => p.protocol == Some(Protocol::Udp),
            Some(o) => matches!(&p.protocol, Some(Protocol::Other(x)) if x == o),
        };
        c.check(kind_ok, "port:protocol kind", || format!("{s:?}: {:?}", p.protocol));
        let n = m.container.1 - m.container.0;
        if n > 2000 && !r.chance(1, 60) {
            c.event("wide ranges not expanded");
            continue;
        }
        let longs: Vec<Port> = p.clone().into_long_iter().collect();
        c.event_n("expanded entries", longs.len() as u64);
        if !c.check(longs.len() == n as usize + 1, "port:expansion length", || format!("{s:?}: {} entries", longs.len())) {
            continue;
        }
        for (k, l) in longs.iter().enumerate() {
            let k = k as u16;
            let want = Port {
                name: None,
                target: m.container.0 + k,
                published: m.host.map(|h| Range::from(h.0 + k)),
                host_ip: m.ip,
                protocol: p.protocol.clone(),
                app_protocol: None,
                mode: None,
                extensions: Extensions::default(),
            };
            if !c.check(*l == want, "port:expansion", || format!("{s:?}[{k}]: {l:?} expected {want:?}")) {
                break;
            }
            if k > 40 {
                continue;
            }
            // back to the short form
            match l.clone().into_short() {
                Ok(sh) => {
                    let back: Vec<Port> = sh.clone().into_long_iter().collect();
                    c.check(back == vec![want.clone()], "port:short and back", || format!("{s:?}[{k}]: {sh} -> {back:?}"));
                    c.check(sh.to_string().parse::<ShortPort>().ok().as_ref() == Some(&sh), "port:short text", || format!("{sh}"));
                }
                Err(_) => c.fail("port:into_short refused", format!("{s:?}[{k}] {l:?}")),
            }
        }
        let set: ports::Ports = [ShortOrLong::Short(p.clone())].into_iter().collect();
        let it: Vec<Port> = ports::into_long_iter(set.clone()).collect();
        c.check(it == longs, "ports:into_long_iter", || format!("{s:?}"));
        let it: Vec<_> = ports::into_short_iter(set).collect();
        c.check(it == vec![Ok(p)], "ports:into_short_iter", || format!("{s:?}"));
    }
}
pub fn ext_map(r: &mut Rng) -> Extensions {
    let mut e = Extensions::new();
    for _ in 0..r.range(0, 2) {
        e.insert(ExtensionKey::new(format!("x-{}", r.string_of("abc-_1", 0, 4))).unwrap(), ext_value(r, 0));
    }
    e
}
pub fn ext_value(r: &mut Rng, depth: u32) -> YamlValue {
    match r.below(if depth > 2 { 6 } else { 8 }) {
        0 => YamlValue::Null,
        1 => YamlValue::Bool(r.bool()),
        2 => YamlValue::from(r.int_u64()),
        3 => YamlValue::from(-(r.range(1, 1 << 40) as i64)),
        4 => YamlValue::from(*r.pick(&[0.5f64, 1.0, -2.25, 1e300, 1e-7, 123456.789])),
        5 => YamlValue::String(match r.below(4) {
            0 => r.pick_str(&["", "null", "true", "1", "1.0", "~", "0x1", "<<", "- a", "a: b", "#c", "'", "\"", "line\nbreak", "é漢", " lead", "trail ", "no", "012", "1e3", "2020-01-01", "!t", "&a", "*a", "|", ">", "%", "@", "`"]),
            _ => r.string_of("abcXYZ 0189:-#,[]{}'\"\\", 0, 8),
        }),
        6 => YamlValue::Sequence((0..r.range(0, 3)).map(|_| ext_value(r, depth + 1)).collect()),
        _ => {
            let mut m = serde_yaml::Mapping::new();
            for _ in 0..r.range(0, 3) {
                let k = r.string_of("abcx-", 1, 4);
                m.insert(YamlValue::String(k), ext_value(r, depth + 1));
            }
            YamlValue::Mapping(m)
        }
    }
}
pub fn long_port(c: &mut Case) {
    let mut r = c.rng.clone();
    let sparse = r.chance(2, 3);
    let some = |r: &mut Rng| if sparse { r.chance(1, 8) } else { r.bool() };
    let mut p = Port {
        name: some(&mut r).then(|| r.pick_str(&["web", "", "a b"])),
        target: r.range(0, 65535) as u16,
        published: r.bool().then(|| {
            let (a, b) = rng_range(&mut r);
            let b = if r.bool() { a } else { b };
            mk_range(a, b).unwrap()
        }),
        host_ip: r.bool().then(|| g::g_ip(&mut r).parse().unwrap()),
        protocol: r.bool().then(|| r.pick(&[Protocol::Tcp, Protocol::Udp, Protocol::Other("sctp".into())]).clone()),
        app_protocol: some(&mut r).then(|| "http".to_owned()),
        mode: some(&mut r).then(|| *r.pick(&[ports::Mode::Host, ports::Mode::Ingress])),
        extensions: if some(&mut r) { ext_map(&mut r) } else { Extensions::new() },
    };
    // often the target is one end of what is published, or next to it
    if let Some(x) = p.published.filter(|_| r.chance(1, 2)) {
        let end = x.end().unwrap_or(x.start());
        p.target = *r.pick(&[x.start(), end, end.saturating_add(1), x.start().saturating_sub(1)]);
    }
    let lossless = p.name.is_none() && p.app_protocol.is_none() && p.mode.is_none() && p.extensions.is_empty() && p.published.map_or(true, |x| x.end().is_none());
    c.event(if lossless { "expressible" } else { "not expressible" });
    c.seen(&format!("{p:?}"));
    c.sample(|| format!("{p:?}"));
    match p.clone().into_short() {
        Ok(s) => {
            c.check(lossless, "port:into_short loses", || format!("{p:?} -> {s}"));
            let back: Vec<Port> = s.clone().into_long_iter().collect();
            c.check(back == vec![p.clone()], "port:into_short roundtrip", || format!("{p:?} -> {s} -> {back:?}"));
        }
        Err(e) => {
            c.check(!lossless, "port:into_short refuses", || format!("{p:?}"));
            c.check(e == p, "port:into_short error value", || format!("{p:?} -> {e:?}"));
        }
    }
    // the YAML form means the same
    let y = serde_yaml::to_value(&p);
    match y.map(serde_yaml::from_value::<ShortOrLong<ShortPort, Port>>) {
        Ok(Ok(ShortOrLong::Long(q))) => {
            c.check(q == p, "port:yaml", || format!("{p:?} read back {q:?}"));
        }
        o => c.fail("port:yaml", format!("{p:?}: {o:?}")),
    }
}

// ---- C08 -----------------------------------------------------------------------------------
fn abs(s: &str) -> AbsolutePath {
    AbsolutePath::new(s).unwrap()
}
pub fn short_volume(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let s = {
            let s = g::g_short_volume(&mut r);
            if r.chance(1, 3) { g::mutate(&mut r, &s, "/a.:,rowzZ") } else { s }
        };
        if recog::short_volume(&s) != Rec::A {
            continue;
        }
        let Ok(v) = s.parse::<ShortVolume>() else {
            c.fail("volume:parse", format!("{s:?} rejected"));
            continue;
        };
        c.seen(&s);
        c.event("short volumes");
        c.sample(|| s.clone());
        let parts: Vec<&str> = s.splitn(3, ':').collect();
        let (src, path, opts) = match parts.len() {
            1 => (None, parts[0], ""),
            2 => (Some(parts[0]), parts[1], ""),
            _ => (Some(parts[0]), parts[1], parts[2]),
        };
        let os: Vec<&str> = opts.split(',').collect();
        let ro = os.contains(&"ro");
        let se = if os.contains(&"z") { Some(SELinux::Shared) } else if os.contains(&"Z") { Some(SELinux::Private) } else { None };
        let host = src.is_some_and(|x| x.starts_with(['.', '/']));
        let want = ShortVolume {
            container_path: abs(path),
            options: src.map(|x| ShortOptions {
                source: if host { Source::HostPath(HostPath::new(x).unwrap()) } else { Source::Volume(Identifier::new(x).unwrap()) },
                read_only: ro,
                selinux: se,
            }),
        };
        if !c.check(v == want && format!("{v:?}") == format!("{want:?}"), "volume:parts", || format!("{s:?}: {v:?}, expected {want:?}")) {
            continue;
        }
        let m = v.clone().into_long();
        let common = Common { target: abs(path), read_only: ro, consistency: None, extensions: Extensions::new() };
        let wl = if host {
            Mount::Bind(Bind {
                source: HostPath::new(src.unwrap()).unwrap(),
                bind: Some(BindOptions { propagation: None, create_host_path: true, selinux: se, extensions: Extensions::new() }),
                common,
            })
        } else {
            Mount::Volume(Volume { source: src.map(|x| Identifier::new(x).unwrap()), volume: None, common })
        };
        c.check(m == wl && format!("{m:?}") == format!("{wl:?}"), "volume:long form", || format!("{s:?}: {m:?}, expected {wl:?}"));
        let via: Mount = v.clone().into();
        c.check(via == wl, "volume:From", || format!("{s:?}: {via:?}"));
        c.check(m.source_to_string().as_deref() == src, "volume:source_to_string", || format!("{s:?}: {:?}", m.source_to_string()));
        match m.clone().into_short() {
            Ok(b) => {
                // relabelling of a named volume exists only in the short form
                let mut want_short = v.clone();
                if let (false, Some(o)) = (host, &mut want_short.options) {
                    o.selinux = None;
                }
                c.check(b == want_short, "volume:back to short", || format!("{s:?}: {b}"));
                c.check(b.clone().into_long() == m, "volume:short and back", || format!("{s:?} -> {b} -> {:?}", b.clone().into_long()));
            }
            Err(_) => c.fail("volume:into_short refused", format!("{s:?} -> {m:?}")),
        }
        let set: volumes::Volumes = [ShortOrLong::Short(v.clone())].into_iter().collect();
        c.check(volumes::into_long_iter(set.clone()).collect::<Vec<_>>() == vec![wl], "volumes:into_long_iter", || s.clone());
        c.check(volumes::into_short_iter(set).collect::<Vec<_>>() == vec![Ok(v)], "volumes:into_short_iter", || s.clone());
    }
}
pub fn gen_mount(r: &mut Rng, sparse: bool) -> Mount {
    let some = |r: &mut Rng| if sparse { r.chance(1, 8) } else { r.bool() };
    let common = Common {
        target: abs(&g::g_abs_path(r)),
        read_only: r.bool(),
        consistency: some(r).then(|| r.pick_str(&["cached", "consistent", ""])),
        extensions: if some(r) { ext_map(r) } else { Extensions::new() },
    };
    let hp = |r: &mut Rng| HostPath::new(g::g_host_path(r).replace(':', "_")).unwrap();
    match r.below(if sparse { 5 } else { 8 }) {
        0 | 1 => Mount::Volume(Volume {
            source: r.chance(2, 3).then(|| Identifier::new(g::g_identifier(r)).unwrap()),
            volume: r.bool().then(|| VolumeOptions {
                nocopy: some(r),
                subpath: some(r).then(|| if r.chance(1, 8) { std::path::PathBuf::new() } else { g::g_rel_path(r).into() }),
                extensions: if some(r) { ext_map(r) } else { Extensions::new() },
            }),
            common,
        }),
        2 | 3 | 4 => Mount::Bind(Bind {
            source: hp(r),
            bind: r.chance(2, 3).then(|| BindOptions {
                propagation: some(r).then(|| *r.pick(&[BindPropagation::Private, BindPropagation::RPrivate, BindPropagation::RShared, BindPropagation::Slave])),
                create_host_path: !some(r),
                selinux: r.bool().then(|| *r.pick(&[SELinux::Shared, SELinux::Private])),
                extensions: if some(r) { ext_map(r) } else { Extensions::new() },
            }),
            common,
        }),
        5 => Mount::Tmpfs(Tmpfs {
            tmpfs: r.bool().then(|| TmpfsOptions {
                size: r.bool().then(|| ByteValue::Megabytes(r.range(0, 100))),
                mode: r.bool().then(|| r.range(0, 0o7777) as u32),
                extensions: ext_map(r),
            }),
            common,
        }),
        6 => Mount::NamedPipe(NamedPipe { source: hp(r), common }),
        _ => Mount::Cluster(Cluster { source: r.pick_str(&["csi", "", "a/b"]), common }),
    }
}
/// Replaces the options the short syntax implies or leaves out by their normal form.
fn mount_normal(m: &Mount) -> Mount {
    let mut m = m.clone();
    match &mut m {
        Mount::Volume(v) => {
            if v.volume.as_ref().is_some_and(VolumeOptions::is_empty) {
                v.volume = None;
            }
        }
        Mount::Bind(b) => {
            if b.bind.is_none() {
                b.bind = Some(BindOptions { create_host_path: true, ..BindOptions::default() });
            }
        }
        _ => {}
    }
    m
}
pub fn long_mount(c: &mut Case) {
    let mut r = c.rng.clone();
    let sparse = r.chance(2, 3);
    let m = gen_mount(&mut r, sparse);
    let com = m.common();
    let plain = com.consistency.is_none() && com.extensions.is_empty();
    let lossless = match &m {
        Mount::Volume(v) => plain && v.volume.as_ref().map_or(true, |o| !o.nocopy && o.subpath.is_none() && o.extensions.is_empty()) && (v.source.is_some() || !com.read_only),
        Mount::Bind(b) => plain && b.bind.as_ref().map_or(true, |o| o.propagation.is_none() && o.create_host_path && o.extensions.is_empty()),
        _ => false,
    };
    c.event(if lossless { "expressible" } else { "not expressible" });
    c.seen(&format!("{m:?}"));
    c.sample(|| format!("{m:?}"));
    match m.clone().into_short() {
        Ok(s) => {
            c.check(lossless, "mount:into_short loses", || format!("{m:?} -> {s}"));
            let back = s.clone().into_long();
            c.check(back == mount_normal(&m), "mount:short and back", || format!("{m:?} -> {s} -> {back:?}"));
            c.check(s.to_string().parse::<ShortVolume>().ok().as_ref() == Some(&s), "mount:short text", || format!("{m:?} -> {s}"));
        }
        Err(e) => {
            c.check(!lossless, "mount:into_short refuses", || format!("{m:?}"));
            c.check(e == m, "mount:into_short error value", || format!("{m:?} -> {e:?}"));
        }
    }
    match serde_yaml::to_value(&m).map(serde_yaml::from_value::<ShortOrLong<ShortVolume, Mount>>) {
        Ok(Ok(ShortOrLong::Long(q))) => {
            // an option group that writes nothing may come back absent or empty
            c.check(q == m, "mount:yaml", || format!("{m:?} read back {q:?}"));
        }
        o => c.fail("mount:yaml", format!("{m:?}: {o:?}")),
    }
    // accessors agree with the value
    let kinds = [m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()];
    let somes = [m.as_volume().is_some(), m.as_bind().is_some(), m.as_tmpfs().is_some(), m.as_named_pipe().is_some(), m.as_cluster().is_some()];
    let (ix, src) = match &m {
        Mount::Volume(v) => (0, v.source.as_ref().map(ToString::to_string)),
        Mount::Bind(b) => (1, Some(b.source.as_path().to_str().unwrap().to_owned())),
        Mount::Tmpfs(_) => (2, None),
        Mount::NamedPipe(b) => (3, Some(b.source.as_path().to_str().unwrap().to_owned())),
        Mount::Cluster(b) => (4, Some(b.source.clone())),
    };
    let want: [bool; 5] = std::array::from_fn(|k| k == ix);
    c.check(kinds == want && somes == want, "mount:kind queries", || format!("{m:?}: {kinds:?} {somes:?}"));
    c.check(m.kind() == ["volume", "bind", "tmpfs", "npipe", "cluster"][ix], "mount:kind", || m.kind().to_owned());
    c.check(m.source_to_string() == src, "mount:source_to_string", || format!("{m:?}: {:?}", m.source_to_string()));
}

// ---- C14 -----------------------------------------------------------------------------------
const UNITS: [(&str, u128); 5] = [("h", 3_600_000_000), ("m", 60_000_000), ("s", 1_000_000), ("ms", 1_000), ("us", 1)];
/// Exact number of microseconds, or None if malformed; Err on overflow.
fn ref_duration(s: &str) -> Option<u128> {
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    let mut i = 0;
    let mut total: u128 = 0;
    let mut too_big = false;
    while i < b.len() {
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if st == i {
            return None;
        }
        let digits = &s[st..i];
        let us = i;
        while i < b.len() && !b[i].is_ascii_digit() {
            i += 1;
        }
        let unit = &s[us..i];
        let (_, mul) = UNITS.iter().find(|u| u.0 == unit)?;
        let (rec, v) = recog::uint(digits, u128::from(u64::MAX));
        if rec != Rec::A {
            too_big = true;
            continue;
        }
        total += v * mul;
    }
    // Durations hold at most u64::MAX seconds.
    if too_big || total / 1_000_000 > u128::from(u64::MAX) {
        return None;
    }
    Some(total)
}
fn ref_format(mut us: u128) -> String {
    if us == 0 {
        return "0s".into();
    }
    let mut s = String::new();
    for (u, m) in UNITS {
        let k = us / m;
        us %= m;
        if k > 0 {
            s += &format!("{k}{u}");
        }
    }
    s
}
fn dur(us: u128) -> Duration {
    Duration::new((us / 1_000_000) as u64, (us % 1_000_000) as u32 * 1000)
}
pub fn gen_duration_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 5) {
        let n = match r.below(8) {
            0 => r.pick_str(&["0", "00", "007", "18446744073709551615", "18446744073709551616", "5124095576030431", "5124095576030432", "307445734561825860", "307445734561825861", "99999999999999999999999"]),
            1 => r.int_u64().to_string(),
            2 => r.range(0, 100_000).to_string(),
            _ => r.range(0, 99).to_string(),
        };
        let u = r.pick_str(&["h", "m", "s", "ms", "us", "h", "m", "s", "ms", "us", "ns", "d", "", "H", "µs", "sm", " s"]);
        s = s + &n + &u;
    }
    if r.chance(1, 6) {
        g::mutate(r, &s, "0123hmsu .-+")
    } else {
        s
    }
}
pub fn durations(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..10 {
        let s = gen_duration_text(&mut r);
        let want = ref_duration(&s);
        let Some(got) = c.guard("duration::parse", &s, || duration::parse(&s).ok()) else { continue };
        c.event(if want.is_some() { "accepted durations" } else { "rejected durations" });
        c.seen(&s);
        c.check(got == want.map(dur), "duration:parse", || format!("{s:?}: {got:?}, expected {:?}", want.map(dur)));
        let Some(us) = want else { continue };
        let t = duration::to_string(dur(us));
        c.check(t == ref_format(us), "duration:format", || format!("{s:?}: {t:?}, expected {:?}", ref_format(us)));
        c.check(duration::parse(&t).ok() == Some(dur(us)), "duration:roundtrip", || format!("{s:?} -> {t:?}"));
    }
    // values
    for _ in 0..10 {
        let secs = match r.below(5) {
            0 => r.range(0, 100),
            1 => r.int_u64(),
            2 => u64::MAX - r.range(0, 4000),
            3 => r.range(0, 200) * 3600 - r.range(0, 1) * 0,
            _ => r.range(0, 100_000),
        };
        let nanos = match r.below(5) {
            0 => 0,
            1 => 999_999_999,
            2 => (r.range(0, 999) * 1_000_000) as u32,
            3 => (r.range(0, 999_999) * 1_000) as u32,
            _ => r.range(0, 999_999_999) as u32,
        };
        let d = Duration::new(secs, nanos);
        let us = u128::from(secs) * 1_000_000 + u128::from(nanos / 1000);
        let Some(t) = c.guard("duration::to_string", &format!("{d:?}"), || duration::to_string(d)) else { continue };
        c.event("formatted durations");
        c.seen(&t);
        c.check(t == ref_format(us), "duration:format", || format!("{d:?}: {t:?}, expected {:?}", ref_format(us)));
        c.check(duration::parse(&t).ok() == Some(dur(us)), "duration:roundtrip value", || format!("{d:?} -> {t:?}"));
        c.sample(|| t.clone());
    }
}
/// Every field of the specification that holds a duration.
type DGet = fn(&Service) -> Option<Duration>;
fn dur_fields() -> Vec<(&'static str, bool, fn(YamlValue) -> YamlValue, DGet, fn(&YamlValue) -> Option<YamlValue>)> {
    fn wrap(path: &[&str], v: YamlValue) -> YamlValue {
        let mut v = v;
        for k in path.iter().rev() {
            let mut m = serde_yaml::Mapping::new();
            if *k == "healthcheck" {
                m.insert("healthcheck".into(), {
                    let mut h = v.as_mapping().unwrap().clone();
                    h.insert("test".into(), "t".into());
                    YamlValue::Mapping(h)
                });
            } else {
                m.insert((*k).into(), v);
            }
            v = YamlValue::Mapping(m);
        }
        v
    }
    fn dig(path: &[&str], v: &YamlValue) -> Option<YamlValue> {
        let mut v = v;
        for k in path {
            v = v.get(*k)?;
        }
        Some(v.clone())
    }
    use compose_spec::service::healthcheck::Healthcheck;
    fn hc(s: &Service) -> Option<&compose_spec::service::healthcheck::Command> {
        match s.healthcheck.as_ref()? {
            Healthcheck::Command(c) => Some(c),
            Healthcheck::Disable => None,
        }
    }
    macro_rules! f {
        ($int:literal, [$($p:literal),*], $get:expr) => {
            ([$($p),*].last().copied().unwrap_or(""), $int, (|v| wrap(&[$($p),*], v)) as fn(YamlValue) -> YamlValue, $get as DGet, (|v| dig(&[$($p),*], v)) as fn(&YamlValue) -> Option<YamlValue>)
        };
    }
    vec![
        f!(true, ["cpu_period"], |s| s.cpu_period),
        f!(true, ["cpu_quota"], |s| s.cpu_quota),
        f!(false, ["cpu_rt_runtime"], |s| s.cpu_rt_runtime),
        f!(false, ["cpu_rt_period"], |s| s.cpu_rt_period),
        f!(false, ["stop_grace_period"], |s| s.stop_grace_period),
        f!(false, ["healthcheck", "interval"], |s| hc(s)?.interval),
        f!(false, ["healthcheck", "timeout"], |s| hc(s)?.timeout),
        f!(false, ["healthcheck", "start_period"], |s| hc(s)?.start_period),
        f!(false, ["healthcheck", "start_interval"], |s| hc(s)?.start_interval),
        f!(false, ["deploy", "restart_policy", "delay"], |s| s.deploy.as_ref()?.restart_policy.as_ref()?.delay),
        f!(false, ["deploy", "restart_policy", "window"], |s| s.deploy.as_ref()?.restart_policy.as_ref()?.window),
        f!(false, ["deploy", "update_config", "delay"], |s| s.deploy.as_ref()?.update_config.as_ref()?.delay),
        f!(false, ["deploy", "update_config", "monitor"], |s| s.deploy.as_ref()?.update_config.as_ref()?.monitor),
        f!(false, ["deploy", "rollback_config", "delay"], |s| s.deploy.as_ref()?.rollback_config.as_ref()?.delay),
        f!(false, ["deploy", "rollback_config", "monitor"], |s| s.deploy.as_ref()?.rollback_config.as_ref()?.monitor),
    ]
}
const DURATIONS: &[&str] = &[
    "delay", "window", "monitor", "interval", "timeout", "start_period", "start_interval", "stop_grace_period",
    "cpu_rt_runtime", "cpu_rt_period", "cpu_period", "cpu_quota",
];
pub fn duration_fields(c: &mut Case) {
    let mut r = c.rng.clone();
    let fields = dur_fields();
    let (name, int, wrap, get, dig) = fields[c.index as usize % fields.len()];
    let label = format!("{name}#{}", c.index as usize % fields.len());
    for _ in 0..6 {
        let as_int = int || r.bool();
        let (v, want) = if as_int {
            let n = match r.below(4) {
                0 => r.int_u64(),
                1 => u64::MAX,
                _ => r.range(0, 10_000_000),
            };
            (YamlValue::from(n), Some(u128::from(n)))
        } else {
            let s = gen_duration_text(&mut r);
            let w = ref_duration(&s);
            (YamlValue::String(s), w)
        };
        let doc = wrap(v.clone());
        let Some(got) = c.guard(&label, &format!("{v:?}"), || serde_yaml::from_value::<Service>(doc.clone())) else { continue };
        c.event("duration fields read");
        // other formats, which may present an option as such
        if let Some(other) = c.guard(&label, &format!("{v:?}"), || crate::driven::from_optional::<Service>(&doc, &mut r, DURATIONS)) {
            let same = match (&got, &other) {
                (Ok(a), Ok(b)) => a == b,
                (a, b) => a.is_err() == b.is_err(),
            };
            c.check(same, &format!("duration field:{label}:formats"), || format!("{v:?} read as {:?} and from another format as {:?}", got.as_ref().map(get), other.as_ref().map(get)));
        }
        c.seen(&format!("{label} {v:?}"));
        match (got, want) {
            (Ok(s), Some(us)) => {
                c.check(get(&s) == Some(dur(us)), &format!("duration field:{label}"), || format!("{v:?} read as {:?}, expected {:?}", get(&s), dur(us)));
                let out = serde_yaml::to_value(&s);
                let Ok(out) = out else {
                    c.fail(format!("duration field:{label}:write"), format!("{v:?}: {out:?}"));
                    continue;
                };
                let w = if int { YamlValue::from(us as u64) } else { YamlValue::String(ref_format(us)) };
                let d = dig(&out);
                c.check(d.as_ref() == Some(&w), &format!("duration field:{label}:written"), || format!("{v:?} written as {d:?}, expected {w:?}"));
                match serde_yaml::from_value::<Service>(out) {
                    Ok(s2) => {
                        c.check(s2 == s, &format!("duration field:{label}:reread"), || format!("{v:?}: {:?} then {:?}", get(&s), get(&s2)));
                    }
                    Err(e) => c.fail(format!("duration field:{label}:reread"), format!("{v:?}: {e}")),
                }
            }
            (Err(_), None) => {}
            (Ok(s), None) => c.fail(format!("duration field:{label}:accepts"), format!("{v:?} read as {:?}", get(&s))),
            (Err(e), Some(_)) => c.fail(format!("duration field:{label}:rejects"), format!("{v:?}: {e}")),
        }
    }
}

// ---- C16 -----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Sc {
    S(String),
    U(u64),
    I(i64),
    F(f64),
    B(bool),
}
fn ref_number(s: &str) -> Option<Sc> {
    let rest = s.strip_prefix(['+', '-']).unwrap_or(s);
    if rest.bytes().any(|b| !b.is_ascii_digit()) || rest.is_empty() {
        if rest.is_empty() {
            return None;
        }
        return s.parse::<f64>().ok().map(Sc::F);
    }
    if s.starts_with('-') {
        // exact arithmetic on the digits
        let (_, v) = recog::uint(rest, u128::from(u64::MAX) * 4);
        if rest.len() > 25 && rest.trim_start_matches('0').len() > 25 {
            return None;
        }
        let v: u128 = rest.parse().unwrap_or(v);
        if v <= 1 << 63 {
            return Some(Sc::I((v as i128).wrapping_neg() as i64));
        }
        return None;
    }
    rest.parse::<u128>().ok().filter(|v| *v <= u128::from(u64::MAX)).map(|v| Sc::U(v as u64))
}
fn ref_value(s: &str) -> Sc {
    match s {
        "true" => Sc::B(true),
        "false" => Sc::B(false),
        _ => ref_number(s).unwrap_or_else(|| Sc::S(s.to_owned())),
    }
}
fn of_value(v: &Value) -> Sc {
    match v {
        Value::String(s) => Sc::S(s.clone()),
        Value::Number(n) => of_num(*n),
        Value::Bool(b) => Sc::B(*b),
    }
}
fn of_num(n: Number) -> Sc {
    match n {
        Number::UnsignedInt(u) => Sc::U(u),
        Number::SignedInt(u) => Sc::I(u),
        Number::Float(u) => Sc::F(u),
    }
}
fn same(a: &Sc, b: &Sc) -> bool {
    match (a, b) {
        (Sc::F(x), Sc::F(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
pub fn gen_scalar_text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.pick_str(&["true", "false", "True", "null", "~", "", " ", "yes", "on", "inf", "-inf", "nan", "NaN", "infinity", "1.", ".5", "-.5", "+5", "-5", "-0", "+", "-", "--1", "+-1", "0x10", "1e5", "1E-5", "1_000", "é", "9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "00012", "-007", "1.0", "1.5", "١"]),
        1 => r.int_u64().to_string(),
        2 => format!("-{}", r.int_u64()),
        3 => format!("{}.{}", r.range(0, 1000), r.range(0, 1000)),
        4 => format!("{}e{}", r.range(0, 100), r.range(0, 40)),
        5 => r.string_of("0123456789", 1, 24),
        6 => r.string_of("+-.0123e", 1, 6),
        7 => r.string_of("truefals", 3, 6),
        _ => r.string_of("abc =:01-", 0, 8),
    }
}
fn gen_sc(r: &mut Rng) -> Sc {
    match r.below(5) {
        0 => Sc::S(gen_scalar_text(r)),
        1 => Sc::U(r.int_u64()),
        2 => Sc::I(match r.below(4) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => r.range(0, 100) as i64 - 50,
            _ => r.int_u64() as i64,
        }),
        3 => Sc::F(match r.below(6) {
            0 => r.range(0, 100) as f64,
            1 => r.range(0, 1000) as f64 / 8.0,
            2 => -(r.range(0, 1000) as f64) / 3.0,
            3 => f64::from_bits(r.u64() & !(0x7ff << 52) | (r.range(1, 2045) << 52)),
            4 => *r.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 1e15, 123456789012345680.0, 0.1, -0.0]),
            _ => r.range(0, 1 << 60) as f64,
        }),
        _ => Sc::B(r.bool()),
    }
}
pub fn scalars(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..6 {
        let s = gen_scalar_text(&mut r);
        let want = ref_value(&s);
        c.event("texts");
        c.seen(&s);
        for (w, v) in [("Value::parse(&str)", Value::parse(s.as_str())), ("Value::parse(String)", Value::parse(s.clone()))] {
            c.check(same(&of_value(&v), &want), "scalar:parse", || format!("{w} {s:?}: {v:?}, expected {want:?}"));
        }
        let n = ref_number(&s);
        for (w, v) in [("parse", s.parse::<Number>().ok()), ("TryFrom<&str>", Number::try_from(s.as_str()).ok())] {
            let ok = match (&v, &n) {
                (None, None) => true,
                (Some(a), Some(b)) => same(&of_num(*a), b),
                _ => false,
            };
            c.check(ok, "scalar:number parse", || format!("Number {w} {s:?}: {v:?}, expected {n:?}"));
        }
        let sn = StringOrNumber::parse(s.as_str());
        let ok = match (&sn, &n) {
            (StringOrNumber::Number(a), Some(b)) => same(&of_num(*a), b),
            (StringOrNumber::String(t), None) => *t == s,
            _ => false,
        };
        c.check(ok, "scalar:string or number parse", || format!("{s:?}: {sn:?}, expected {n:?}"));
    }
    for _ in 0..6 {
        let k = gen_sc(&mut r);
        let v = match &k {
            Sc::S(s) => match r.below(4) {
                0 => Value::from(s.as_str()),
                1 => Value::from(s.clone()),
                2 => Value::from(s.clone().into_boxed_str()),
                _ => Value::from(std::borrow::Cow::Borrowed(s.as_str())),
            },
            Sc::U(u) => Value::from(*u),
            Sc::I(u) => Value::from(*u),
            Sc::F(u) => Value::from(*u),
            Sc::B(u) => Value::from(*u),
        };
        c.event("values");
        c.seen(&format!("{k:?}"));
        c.sample(|| format!("{k:?}"));
        c.check(same(&of_value(&v), &k), "scalar:From", || format!("{k:?} -> {v:?}"));
        let flags = (v.is_string(), v.is_number(), v.is_bool());
        let wf = (matches!(k, Sc::S(_)), matches!(k, Sc::U(_) | Sc::I(_) | Sc::F(_)), matches!(k, Sc::B(_)));
        c.check(flags == wf && (v.as_string().is_some(), v.as_number().is_some(), v.as_bool().is_some()) == wf, "scalar:queries", || format!("{v:?}: {flags:?}"));
        if let Some(n) = v.as_number() {
            let f = (n.is_unsigned_int(), n.is_signed_int(), n.is_float());
            let g2 = (n.as_unsigned_int().is_some(), n.as_signed_int().is_some(), n.as_float().is_some());
            let w = (matches!(k, Sc::U(_)), matches!(k, Sc::I(_)), matches!(k, Sc::F(_)));
            c.check(f == w && g2 == w, "scalar:number queries", || format!("{n:?}: {f:?} {g2:?}"));
        }
        // a number on its own: read, written with exponents
        if let (Some(n), false) = (v.as_number().copied(), matches!(k, Sc::F(f) if !f.is_finite())) {
            let read: [(&str, Option<Number>); 4] = [
                ("value", serde_yaml::to_value(n).ok().and_then(|y| serde_yaml::from_value(y).ok())),
                ("text", serde_yaml::to_string(&n).ok().and_then(|y| serde_yaml::from_str(&y).ok())),
                ("json", serde_json::to_value(n).ok().and_then(|y| serde_json::from_value(y).ok())),
                ("driven", serde_yaml::to_value(n).ok().and_then(|y| crate::driven::from_driven(&y, &mut r).ok())),
            ];
            let wk = if let Sc::I(i) = k { u64::try_from(i).map_or(k.clone(), Sc::U) } else { k.clone() };
            for (how, got) in read {
                c.check(got.is_some_and(|g| same(&of_num(g), &wk)), &format!("scalar:number {how}"), || format!("{n:?} read back {got:?}"));
            }
            let sci = match &k {
                Sc::U(u) => (format!("{u:e}"), format!("{u:E}")),
                Sc::I(u) => (format!("{u:e}"), format!("{u:E}")),
                Sc::F(u) => (format!("{u:e}"), format!("{u:E}")),
                _ => Default::default(),
            };
            c.check((format!("{n:e}"), format!("{n:E}")) == sci, "scalar:exponent", || format!("{n:?}: {n:e} {n:E}, expected {sci:?}"));
        }
        for wrong in [YamlValue::Bool(true), YamlValue::Null, YamlValue::String("1".into()), YamlValue::Sequence(vec![1.into()])] {
            if r.chance(1, 8) {
                c.check(serde_yaml::from_value::<Number>(wrong.clone()).is_err(), "scalar:number accepts", || format!("{wrong:?} read as a number"));
            }
        }
        let text = match &k {
            Sc::S(s) => s.clone(),
            Sc::U(u) => u.to_string(),
            Sc::I(u) => u.to_string(),
            Sc::F(f) => f.to_string(),
            Sc::B(b) => b.to_string(),
        };
        c.check(v.to_string() == text && String::from(v.clone()) == text, "scalar:display", || format!("{v:?}: {v}"));
        if let (Sc::F(f), Ok(x)) = (&k, text.parse::<f64>()) {
            c.check(x.to_bits() == f.to_bits(), "scalar:display float", || format!("{f:e} -> {text}"));
        }
        // conversions
        let num = match &k {
            Sc::S(s) => ref_number(s),
            Sc::B(b) => Some(Sc::U(u64::from(*b))),
            o => Some(o.clone()),
        };
        let gn = Number::try_from(v.clone()).ok();
        c.check(match (&gn, &num) { (None, None) => true, (Some(a), Some(b)) => same(&of_num(*a), b), _ => false }, "scalar:to number", || format!("{v:?}: {gn:?} expected {num:?}"));
        let wu = match num { Some(Sc::U(u)) => Some(u), Some(Sc::I(i)) => u64::try_from(i).ok(), _ => None };
        let wi = match num { Some(Sc::U(u)) => i64::try_from(u).ok(), Some(Sc::I(i)) => Some(i), _ => None };
        c.check(u64::try_from(v.clone()).ok() == wu, "scalar:to u64", || format!("{v:?}: {:?} expected {wu:?}", u64::try_from(v.clone())));
        c.check(i64::try_from(v.clone()).ok() == wi, "scalar:to i64", || format!("{v:?}: {:?} expected {wi:?}", i64::try_from(v.clone())));
        if let Some(n) = gn {
            c.check(u64::try_from(n).ok() == wu && i64::try_from(n).ok() == wi, "scalar:number to int", || format!("{n:?}"));
        }
        let wf = match num {
            Some(Sc::U(u)) => u32::try_from(u).ok().map(f64::from),
            Some(Sc::I(i)) => i32::try_from(i).ok().map(f64::from),
            Some(Sc::F(f)) => Some(f),
            _ => None,
        };
        let gf = f64::try_from(v.clone()).ok();
        c.check(gf.map(f64::to_bits) == wf.map(f64::to_bits) || wf.is_some_and(f64::is_nan), "scalar:to f64", || format!("{v:?}: {gf:?} expected {wf:?}"));
        let gb = bool::try_from(v.clone()).ok();
        c.check(gb == if let Sc::B(b) = k { Some(b) } else { None }, "scalar:to bool", || format!("{v:?}: {gb:?}"));
        // through YAML and JSON
        let y = serde_yaml::to_value(&v).ok().and_then(|y| serde_yaml::from_value::<Value>(y).ok());
        // integers have one representation in YAML: a non-negative signed one reads back unsigned
        let wk = match &k {
            Sc::I(i) if *i >= 0 => Sc::U(*i as u64),
            o => o.clone(),
        };
        c.check(y.as_ref().is_some_and(|y| same(&of_value(y), &wk)), "scalar:yaml", || format!("{v:?} read back {y:?}"));
        if let Ok(t) = serde_yaml::to_string(&v) {
            let raw: Option<YamlValue> = serde_yaml::from_str(&t).ok();
            if raw == serde_yaml::to_value(&v).ok() {
                let y: Option<Value> = serde_yaml::from_str(&t).ok();
                c.check(y.as_ref().is_some_and(|y| same(&of_value(y), &wk)), "scalar:yaml text", || format!("{v:?} as {t:?} read back {y:?}"));
            }
        }
        if let Ok(j) = serde_json::to_value(&v) {
            let y: Option<Value> = serde_json::from_value(j).ok();
            c.check(y.as_ref().is_some_and(|y| same(&of_value(y), &wk)), "scalar:json", || format!("{v:?} read back {y:?}"));
        }
        // StringOrNumber
        let sn = match &k {
            Sc::S(s) => Some(match r.below(4) {
                0 => StringOrNumber::from(s.as_str()),
                1 => StringOrNumber::from(s.clone()),
                2 => StringOrNumber::from(s.clone().into_boxed_str()),
                _ => StringOrNumber::from(std::borrow::Cow::Borrowed(s.as_str())),
            }),
            Sc::U(u) => Some(StringOrNumber::from(*u)),
            Sc::I(u) => Some(StringOrNumber::from(*u)),
            Sc::F(u) => Some(StringOrNumber::from(*u)),
            Sc::B(_) => None,
        };
        if let Some(sn) = sn {
            let of = |s: &StringOrNumber| match s {
                StringOrNumber::String(s) => Sc::S(s.clone()),
                StringOrNumber::Number(n) => of_num(*n),
            };
            c.check(same(&of(&sn), &k), "stringornumber:From", || format!("{k:?} -> {sn:?}"));
            c.check(sn.is_string() == wf_is_s(&k) && sn.is_number() != wf_is_s(&k) && sn.as_string().is_some() == wf_is_s(&k) && sn.as_number().is_some() != wf_is_s(&k), "stringornumber:queries", || format!("{sn:?}"));
            c.check(sn.to_string() == text && String::from(sn.clone()) == text, "stringornumber:display", || format!("{sn:?}: {sn}"));
            let gn = Number::try_from(sn.clone()).ok();
            c.check(match (&gn, &num) { (None, None) => true, (Some(a), Some(b)) => same(&of_num(*a), b), _ => false }, "stringornumber:to number", || format!("{sn:?}: {gn:?}"));
            let y = serde_yaml::to_value(&sn).ok().and_then(|y| serde_yaml::from_value::<StringOrNumber>(y).ok());
            c.check(y.as_ref().is_some_and(|y| same(&of(y), &wk)), "stringornumber:yaml", || format!("{sn:?} read back {y:?}"));
        }
    }
}
fn wf_is_s(k: &Sc) -> bool {
    matches!(k, Sc::S(_))
}
fn sc_value(k: &Sc) -> Value {
    match k {
        Sc::S(s) => s.as_str().into(),
        Sc::U(u) => (*u).into(),
        Sc::I(u) => (*u).into(),
        Sc::F(u) => (*u).into(),
        Sc::B(u) => (*u).into(),
    }
}
pub fn lists_and_maps(c: &mut Case) {
    let mut r = c.rng.clone();
    // list form
    let n = if r.chance(1, 96) { r.range(100, 600) } else { r.range(0, 6) };
    let mut items: Vec<String> = Vec::new();
    for _ in 0..n {
        let key = if r.chance(1, 8) { g::mutate(&mut r, "KEY", "aZ =:\n") } else { g::g_map_key(&mut r) };
        let mut s = key;
        if r.chance(3, 4) {
            s += &r.pick_str(&["=", "=", "=", ":", "=="]);
            s += &gen_scalar_text(&mut r);
        }
        items.push(s);
        if r.chance(1, 6) {
            let k = r.below(items.len());
            items.push(items[k].clone());
        }
    }
    let y = YamlValue::Sequence(items.iter().cloned().map(YamlValue::String).collect());
    let uniq: IndexSet<String> = items.iter().cloned().collect();
    match serde_yaml::from_value::<ListOrMap>(y) {
        Err(e) => c.fail("list:rejected", format!("{items:?}: {e}")),
        Ok(l) => {
            c.event("list forms");
            c.seen(&items);
            c.sample(|| format!("{items:?}"));
            let want: Vec<&String> = uniq.iter().collect();
            c.check(l.as_list().map(|l| l.iter().collect::<Vec<_>>()) == Some(want.clone()) && l.as_map().is_none(), "list:elements", || format!("{items:?} -> {l:?}"));
            c.check(l.is_empty() == uniq.is_empty(), "list:is_empty", || format!("{l:?}"));
            c.check(l.clone().into_list().iter().collect::<Vec<_>>() == want, "list:into_list", || format!("{l:?}"));
            let y2 = serde_yaml::to_value(&l).ok();
            c.check(y2 == Some(YamlValue::Sequence(uniq.iter().cloned().map(YamlValue::String).collect())), "list:yaml", || format!("{l:?} -> {y2:?}"));
            for delims in [&['='][..], &[':'][..], &['=', ':'][..]] {
                let mut want: IndexMap<String, Option<Sc>> = IndexMap::new();
                let mut rec = Rec::A;
                let mut dup = false;
                for i in &uniq {
                    let (k, v) = match i.find(|x| delims.contains(&x)) {
                        Some(p) => (&i[..p], &i[p + 1..]),
                        None => (i.as_str(), ""),
                    };
                    rec = recog::and(&[rec, recog::map_key(k)]);
                    dup |= want.insert(k.to_owned(), (!v.is_empty()).then(|| ref_value(v))).is_some();
                }
                let got = l.clone().into_map_split_on(delims);
                if delims == ['='] {
                    let g2 = l.clone().into_map();
                    let txt = |m: &Result<compose_spec::Map, _>| m.as_ref().ok().map(|m| format!("{m:?}"));
                    c.check(txt(&g2) == txt(&got), "list:into_map vs split_on", || format!("{items:?}"));
                }
                c.event("list to map");
                match (&got, rec) {
                    (_, Rec::U) => {}
                    (Err(_), Rec::R) => {}
                    (Err(e), Rec::A) => c.fail("list:into_map rejects", format!("{items:?} on {delims:?}: {e}")),
                    (Ok(m), Rec::R) => c.fail("list:into_map accepts", format!("{items:?} on {delims:?}: {m:?}")),
                    (Ok(m), Rec::A) if !dup => {
                        let g2: Vec<(String, Option<Sc>)> = m.iter().map(|(k, v)| (k.as_str().to_owned(), v.as_ref().map(of_value))).collect();
                        let ok = g2.len() == want.len()
                            && g2.iter().zip(&want).all(|(a, b)| a.0 == *b.0 && match (&a.1, b.1) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false });
                        c.check(ok, "list:into_map", || format!("{items:?} on {delims:?}: {g2:?}, expected {want:?}"));
                    }
                    _ => {}
                }
            }
        }
    }
    // map form
    let mut m: IndexMap<String, Option<Sc>> = IndexMap::new();
    for _ in 0..r.range(0, 5) {
        m.insert(g::g_map_key(&mut r), r.chance(3, 4).then(|| gen_sc(&mut r)));
    }
    m.retain(|k, _| recog::map_key(k) == Rec::A);
    let mut ym = serde_yaml::Mapping::new();
    for (k, v) in &m {
        ym.insert(k.as_str().into(), v.as_ref().map_or(YamlValue::Null, |v| serde_yaml::to_value(sc_value(v)).unwrap()));
    }
    match serde_yaml::from_value::<ListOrMap>(YamlValue::Mapping(ym.clone())) {
        Err(e) => c.fail("map:rejected", format!("{m:?}: {e}")),
        Ok(l) => {
            c.event("map forms");
            c.seen(&format!("{m:?}"));
            let ok = l.as_map().is_some_and(|x| {
                x.len() == m.len()
                    && x.iter().zip(&m).all(|(a, b)| {
                        a.0.as_str() == b.0
                            && match (a.1, b.1) {
                                (None, None) => true,
                                (Some(p), Some(Sc::I(i))) if *i >= 0 => same(&of_value(p), &Sc::U(*i as u64)),
                                (Some(p), Some(q)) => same(&of_value(p), q),
                                _ => false,
                            }
                    })
            });
            c.check(ok, "map:entries", || format!("{m:?} -> {l:?}"));
            c.check(l.is_empty() == m.is_empty() && l.as_list().is_none(), "map:queries", || format!("{l:?}"));
            c.check(serde_yaml::to_value(&l).ok() == Some(YamlValue::Mapping(ym)), "map:yaml", || format!("{l:?}"));
            let im = l.clone().into_map().ok().map(|x| format!("{x:?}"));
            c.check(im == l.as_map().map(|x| format!("{x:?}")), "map:into_map", || format!("{l:?}"));
            let want: Vec<String> = m.iter().map(|(k, v)| match v { Some(v) => format!("{k}={}", sc_value(v)), None => k.clone() }).collect();
            let uw: IndexSet<String> = want.into_iter().collect();
            let got = l.clone().into_list();
            c.check(got.iter().eq(uw.iter()), "map:into_list", || format!("{l:?} -> {got:?}"));
        }
    }
    // item or list
    let k = r.range(0, 4);
    let items: Vec<String> = (0..k).map(|_| r.string_of("abc", 1, 2)).collect();
    let uniq: IndexSet<String> = items.iter().cloned().collect();
    let y = YamlValue::Sequence(items.iter().cloned().map(YamlValue::String).collect());
    match serde_yaml::from_value::<ItemOrList<String>>(y) {
        Ok(l) => {
            c.event("item or list");
            c.check(l.as_list().is_some_and(|x| x.iter().eq(uniq.iter())), "items:list", || format!("{items:?} -> {l:?}"));
            c.check(l.as_item() == if uniq.len() == 1 { uniq.first() } else { None }, "items:as_item", || format!("{l:?}"));
            c.check(serde_yaml::to_value(&l).ok() == Some(YamlValue::Sequence(uniq.iter().cloned().map(YamlValue::String).collect())), "items:yaml", || format!("{l:?}"));
            c.check(l.into_list().iter().eq(uniq.iter()), "items:into_list", || format!("{items:?}"));
        }
        Err(e) => c.fail("items:list rejected", format!("{items:?}: {e}")),
    }
    let one = gen_scalar_text(&mut r);
    match serde_yaml::from_value::<ItemOrList<String>>(YamlValue::String(one.clone())) {
        Ok(l) => {
            c.check(matches!(&l, ItemOrList::Item(x) if *x == one) && l.as_item() == Some(&one) && l.as_list().is_none(), "items:item", || format!("{one:?} -> {l:?}"));
            c.check(serde_yaml::to_value(&l).ok() == Some(YamlValue::String(one.clone())), "items:item yaml", || format!("{l:?}"));
            c.check(l.into_list().iter().eq([&one]), "items:item into_list", || one.clone());
        }
        Err(e) => c.fail("items:item rejected", format!("{one:?}: {e}")),
    }
}

// ---- C17 -----------------------------------------------------------------------------------
fn svc(key: &str, v: YamlValue) -> Option<Service> {
    let mut m = serde_yaml::Mapping::new();
    m.insert(key.into(), v);
    serde_yaml::from_value(YamlValue::Mapping(m)).ok()
}
fn gen_int(r: &mut Rng, around: &[i128]) -> i128 {
    let b = *r.pick(around);
    if crate::dict::number_now(r, 16, 5) {
        let n = i128::from(crate::dict::number_near(r));
        return if r.chance(1, 4) { -n } else { n };
    }
    match r.below(4) {
        0 => b,
        1 => b + i128::from(r.range(0, 3)) - 1,
        2 => i128::from(r.int_u64()) - if r.chance(1, 5) { i128::from(r.int_u64()) } else { 0 },
        _ => i128::from(r.range(0, 4000)) - 1500,
    }
}
fn yint(n: i128) -> Option<YamlValue> {
    if n >= 0 {
        u64::try_from(n).ok().map(YamlValue::from)
    } else {
        i64::try_from(n).ok().map(YamlValue::from)
    }
}
pub fn bounded_integers(c: &mut Case) {
    let mut r = c.rng.clone();
    type Get = fn(&Service) -> Option<i128>;
    fn one(path: &'static str, v: YamlValue) -> Option<Service> {
        // "a.b.c" nested keys
        let mut v = v;
        for k in path.split('.').rev() {
            let mut m = serde_yaml::Mapping::new();
            m.insert(k.into(), v);
            v = YamlValue::Mapping(m);
        }
        serde_yaml::from_value(v).ok()
    }
    let table: Vec<(&'static str, i128, i128, Get)> = vec![
        ("cpu_percent", 0, 100, |s| Some(s.cpu_percent?.into_inner().into())),
        ("mem_swappiness", 0, 100, |s| Some(s.mem_swappiness?.into_inner().into())),
        ("oom_score_adj", -1000, 1000, |s| Some(i16::from(s.oom_score_adj?).into())),
        ("blkio_config.weight", 10, 1000, |s| Some(s.blkio_config.as_ref()?.weight?.into_inner().get().into())),
        ("cpu_count", 0, u64::MAX as i128, |s| Some(s.cpu_count?.into())),
        ("cpu_shares", 0, u64::MAX as i128, |s| Some(s.cpu_shares?.into())),
        ("scale", 0, u64::MAX as i128, |s| Some(s.scale?.into())),
        ("deploy.replicas", 0, u64::MAX as i128, |s| Some(s.deploy.as_ref()?.replicas?.into())),
        ("deploy.placement.max_replicas_per_node", 0, u64::MAX as i128, |s| Some(s.deploy.as_ref()?.placement.as_ref()?.max_replicas_per_node?.into())),
        ("deploy.restart_policy.max_attempts", 0, u64::MAX as i128, |s| Some(s.deploy.as_ref()?.restart_policy.as_ref()?.max_attempts?.into())),
        ("deploy.update_config.parallelism", 0, u64::MAX as i128, |s| Some(s.deploy.as_ref()?.update_config.as_ref()?.parallelism?.into())),
        ("deploy.rollback_config.parallelism", 0, u64::MAX as i128, |s| Some(s.deploy.as_ref()?.rollback_config.as_ref()?.parallelism?.into())),
        ("pids_limit", -1, u32::MAX as i128, |s| Some(match s.pids_limit? { Limit::Value(v) => v.into(), Limit::Unlimited => -1 })),
        ("deploy.resources.limits.pids", -1, u32::MAX as i128, |s| Some(match s.deploy.as_ref()?.resources.as_ref()?.limits.as_ref()?.pids? { Limit::Value(v) => v.into(), Limit::Unlimited => -1 })),
        ("memswap_limit", -1, u64::MAX as i128, |s| Some(match s.memswap_limit? { Limit::Value(ByteValue::Bytes(v)) => v.into(), Limit::Value(_) => -7, Limit::Unlimited => -1 })),
        ("mem_limit", 0, u64::MAX as i128, |s| match s.mem_limit? { ByteValue::Bytes(b) => Some(b.into()), _ => Some(-7) }),
        ("mem_reservation", 0, u64::MAX as i128, |s| match s.mem_reservation? { ByteValue::Bytes(b) => Some(b.into()), _ => Some(-7) }),
        ("shm_size", 0, u64::MAX as i128, |s| match s.shm_size? { ByteValue::Bytes(b) => Some(b.into()), _ => Some(-7) }),
        ("ulimits.nofile", -1, u64::MAX as i128, |s| match s.ulimits.get("nofile")? { ShortOrLong::Short(Limit::Value(v)) => Some((*v).into()), ShortOrLong::Short(Limit::Unlimited) => Some(-1), ShortOrLong::Long(_) => Some(-7) }),
    ];
    for _ in 0..8 {
        let (path, lo, hi, get) = *r.pick(&table);
        let n = gen_int(&mut r, &[lo, hi, 0, -1, 255, 256, 32767, 32768, -32768, 65535, 65536, u32::MAX as i128, 127, 128]);
        let Some(y) = yint(n) else { continue };
        let ok = lo <= n && n <= hi;
        let got = c.guard(path, &n.to_string(), || one(path, y.clone()));
        let Some(got) = got else { continue };
        c.event(if ok { "in range" } else { "out of range" });
        c.seen(&(path, n));
        match &got {
            Some(s) => {
                c.check(ok && get(s) == Some(n), &format!("int:{path}"), || format!("{path}: {n} read as {:?} (range {lo}..={hi})", get(s)));
                if ok {
                    let back = serde_yaml::to_value(s).ok().and_then(|v| serde_yaml::from_value::<Service>(v).ok());
                    c.check(back.as_ref().and_then(get) == Some(n), &format!("int:{path}:written"), || format!("{n}: reread {:?}", back.as_ref().and_then(get)));
                }
            }
            None => {
                c.check(!ok, &format!("int:{path}:rejects"), || format!("{path}: {n} is rejected (range {lo}..={hi})"));
            }
        }
        c.sample(|| format!("{path}: {n}"));
    }
    // direct constructors
    let n = r.range(0, 255) as u8;
    c.check(Percent::new(n).is_ok() == (n <= 100) && Percent::try_from(n).is_ok() == (n <= 100), "percent:new", || n.to_string());
    if let Ok(p) = Percent::new(n) {
        c.check(p.into_inner() == n && u8::from(p) == n && p == n, "percent:value", || n.to_string());
    }
    let n = gen_int(&mut r, &[-1000, 1000, 0]) as i16;
    c.check(OomScoreAdj::new(n).is_ok() == (-1000..=1000).contains(&n), "oom:new", || n.to_string());
    if let Ok(o) = OomScoreAdj::new(n) {
        c.check(i16::from(o) == n && o == n, "oom:value", || n.to_string());
    }
    let n = gen_int(&mut r, &[10, 1000, 0]) as u16;
    c.check(Weight::new(n).is_ok() == (10..=1000).contains(&n) && Weight::try_from(n).is_ok() == (10..=1000).contains(&n), "weight:new", || n.to_string());
    if let Ok(w) = Weight::new(n) {
        c.check(u16::from(w) == n && w == n && w.to_string() == n.to_string(), "weight:value", || n.to_string());
    }
    c.check(Weight::default().into_inner().get() == 500 && Weight::DEFAULT.into_inner().get() == 500, "weight:default", || format!("{}", Weight::default()));
}
pub fn byte_values(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..8 {
        let s = {
            let s = g::g_byte_value(&mut r);
            match r.below(6) {
                0 | 1 => g::mutate(&mut r, &s, "0123456789bkmgiBKMGI "),
                2 => {
                    // units that are nearly those documented
                    let u = r.pick_str(&["kb", "mb", "gb", "b", "k", "kib", "mib", "gib", "t", "tb", "bb", "kk", "bytes", "bk", "kbs", "p", "ki", "o", "kbit", "e3"]);
                    let u: String = u.chars().map(|ch| if r.bool() { ch.to_ascii_uppercase() } else { ch }).collect();
                    format!("{}{}{u}", r.int_u64(), r.pick(&["", "", "", " ", ".0", "_", "."]))
                }
                _ => s,
            }
        };
        let (rec, v, unit) = recog::byte_value_vals(&s);
        let Some(got) = c.guard("ByteValue", &s, || s.parse::<ByteValue>().ok()) else { continue };
        if rec == Rec::U {
            continue;
        }
        c.seen(&s);
        c.event(if rec == Rec::A { "byte sizes" } else { "malformed byte sizes" });
        if rec == Rec::R {
            c.check(got.is_none(), "bytes:accepts", || format!("{s:?}: {got:?}"));
            continue;
        }
        let v = v as u64;
        let (want, mul) = match unit {
            "b" => (ByteValue::Bytes(v), 1u64),
            "kb" => (ByteValue::Kilobytes(v), 1000),
            "mb" => (ByteValue::Megabytes(v), 1_000_000),
            _ => (ByteValue::Gigabytes(v), 1_000_000_000),
        };
        let Some(got) = got else {
            c.fail("bytes:rejects", s);
            continue;
        };
        c.check(got == want, "bytes:value", || format!("{s:?}: {got:?} expected {want:?}"));
        let total = u128::from(v) * u128::from(mul);
        c.check(got.into_bytes().map(u128::from) == u64::try_from(total).ok().map(u128::from), "bytes:into_bytes", || format!("{s:?}: {:?} expected {total}", got.into_bytes()));
        c.check(got.unit() == unit && got.to_string() == format!("{v}{unit}"), "bytes:text", || format!("{s:?}: {got}"));
        for key in ["mem_limit", "mem_reservation", "shm_size", "memswap_limit"] {
            let Some(x) = svc(key, YamlValue::String(s.clone())) else {
                c.fail(format!("bytes:{key}:rejects"), s.clone());
                continue;
            };
            let val = match key {
                "mem_limit" => x.mem_limit,
                "mem_reservation" => x.mem_reservation,
                "shm_size" => x.shm_size,
                _ => match x.memswap_limit {
                    Some(Limit::Value(v)) => Some(v),
                    _ => None,
                },
            };
            c.check(val == Some(want), &format!("bytes:{key}"), || format!("{s:?}: {val:?}"));
            let y = serde_yaml::to_value(&x).ok().and_then(|y| y.get(key).cloned());
            c.check(y == Some(YamlValue::String(format!("{v}{unit}"))), &format!("bytes:{key}:written"), || format!("{s:?}: {y:?}"));
        }
    }
    // cpu sets
    for _ in 0..4 {
        let s = {
            let s = g::g_cpuset(&mut r);
            if r.chance(1, 3) { g::mutate(&mut r, &s, "0123,- ") } else { s }
        };
        let (rec, span, set) = recog::cpuset_vals(&s);
        if rec == Rec::U || span > 100_000 {
            continue;
        }
        let Some(got) = c.guard("CpuSet", &s, || s.parse::<CpuSet>().ok()) else { continue };
        c.event("cpu sets");
        c.seen(&s);
        match (got, rec) {
            (Some(x), Rec::A) => {
                let w: BTreeSet<u64> = set.into_iter().collect();
                c.check(x.0 == w && x.is_empty() == w.is_empty(), "cpuset:value", || format!("{s:?}: {:?} expected {w:?}", x.0));
                c.check(BTreeSet::from(x.clone()) == w && CpuSet::from(w.clone()) == x, "cpuset:conversions", || s.clone());
                let t = x.to_string();
                c.check(recog::cpuset_vals(&t).2.into_iter().collect::<BTreeSet<_>>() == w, "cpuset:text", || format!("{s:?} written {t:?}"));
            }
            (None, Rec::R) => {}
            (g2, _) => c.fail("cpuset:accept", format!("{s:?}: {g2:?}")),
        }
    }
    // sets built by a program, near the top of the range
    let mut w: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..r.range(0, 6) {
        let a = *r.pick(&[0u64, 1, 7, u64::MAX - 3, u64::MAX, 1 << 32]);
        for k in 0..r.range(1, 3) {
            w.insert(a.saturating_add(k));
        }
    }
    let x = CpuSet(w.clone());
    if let Some(t) = c.guard("CpuSet display", &format!("{w:?}"), || x.to_string()) {
        c.check(t.parse::<CpuSet>().ok() == Some(x), "cpuset:roundtrip", || format!("{w:?} written {t:?}"));
    }
    // cpus
    let f: f64 = match r.below(9) {
        6 => f64::from_bits(r.u64()),
        7 => f64::from_bits(1u64 << r.below(64)),
        8 => *r.pick(&[0.0, f64::MIN_POSITIVE, f64::MIN_POSITIVE / 8.0, 5e-324, f64::MAX, f64::MIN, 1e-9, 1e300, u64::MAX as f64, i64::MAX as f64]),
        0 => r.range(0, 64) as f64,
        1 => r.range(0, 6400) as f64 / 100.0,
        2 => -(r.range(1, 100) as f64) / 10.0,
        3 => f64::INFINITY,
        4 => f64::NAN,
        _ => r.range(0, 1 << 40) as f64 / 7.0,
    };
    let f = if f == 0.0 { 0.0 } else { f };
    let ok = f.is_finite() && f >= 0.0;
    c.event("cpus values");
    c.seen(&f.to_bits());
    let n = Cpus::new(f);
    c.check(n.is_ok() == ok && Cpus::try_from(f).is_ok() == ok, "cpus:new", || format!("{f}: {n:?}"));
    if let Ok(n) = n {
        c.check(n.into_inner().to_bits() == f.to_bits() && n == f, "cpus:value", || format!("{f}: {n:?}"));
    }
    for y in [YamlValue::from(f), YamlValue::String(f.to_string())] {
        let s = svc("cpus", y.clone());
        c.check(s.as_ref().is_some_and(|s| s.cpus.is_some()) == ok, "cpus:field", || format!("{y:?}: {:?}", s.as_ref().map(|s| s.cpus)));
        if let Some(x) = s.and_then(|s| s.cpus) {
            c.check(x.into_inner().to_bits() == f.to_bits(), "cpus:field value", || format!("{y:?}: {x:?}"));
        }
    }
    let k = gen_int(&mut r, &[0, 1, u32::MAX as i128]);
    if let (Some(y), true) = (yint(k), k <= u32::MAX as i128) {
        let x = svc("cpus", y).and_then(|s| s.cpus).map(Cpus::into_inner);
        let w = (k >= 0).then_some(k as f64);
        c.check(x == w, "cpus:integer", || format!("{k}: {x:?} expected {w:?}"));
    }
    // limits and counts given as text
    let n = gen_int(&mut r, &[-1, 0, u32::MAX as i128, u64::MAX as i128]);
    let t = n.to_string();
    let w32 = if n == -1 { Some(Limit::Unlimited) } else { u32::try_from(n).ok().map(Limit::Value) };
    let w64 = if n == -1 { Some(Limit::Unlimited) } else { u64::try_from(n).ok().map(Limit::Value) };
    c.check(t.parse::<Limit<u32>>().ok() == w32, "limit:u32", || t.clone());
    c.check(t.parse::<Limit<u64>>().ok() == w64, "limit:u64", || t.clone());
    if let Some(y) = yint(n) {
        c.check(serde_yaml::from_value::<Limit<u32>>(y.clone()).ok() == w32, "limit:u32 yaml", || t.clone());
        c.check(serde_yaml::from_value::<Limit<u64>>(y.clone()).ok() == w64, "limit:u64 yaml", || t.clone());
        let wc = u64::try_from(n).ok().map(Count::Integer);
        c.check(serde_yaml::from_value::<Count>(y).ok() == wc, "count:yaml", || t.clone());
    }
    let wc = u64::try_from(n).ok().map(Count::Integer);
    c.check(t.parse::<Count>().ok() == wc, "count:text", || t.clone());
    for l in [w64, Some(Limit::Unlimited)].into_iter().flatten() {
        let y = serde_yaml::to_value(l).ok();
        let w = match l {
            Limit::Unlimited => YamlValue::from(-1),
            Limit::Value(v) => YamlValue::from(v),
        };
        c.check(y == Some(w), "limit:written", || format!("{l:?}: {y:?}"));
    }
}

// ---- C22 -----------------------------------------------------------------------------------
/// Build a platform from an operating system and an architecture through the typed enums.
fn with_arch(c: &mut Case, os: platform::Os, arch: platform::Arch) -> Option<Platform> {
    macro_rules! m {
        ($($v:ident $a:ident),*) => { match os { $(
            platform::Os::$v => {
                c.check(platform::$a::OS == os, "platform:os const", || format!("{os}"));
                let x = platform::$a::try_from(arch).ok();
                let t: Option<platform::$a> = arch.as_str().parse().ok();
                c.check(t == x, "platform:typed arch text", || format!("{os} {arch}: {t:?} vs {x:?}"));
                if let Some(x) = x {
                    c.check(platform::Arch::from(x) == arch, "platform:typed arch back", || format!("{os} {arch}: {x:?}"));
                    c.check(x.as_str() == arch.as_str() && x.to_string() == arch.to_string(), "platform:typed arch shown", || format!("{os} {arch}: {x}"));
                }
                x.map(|x| Platform::$v(Some(x)))
            }
        )* } };
    }
    m!(Aix AixArch, Android AndroidArch, Darwin DarwinArch, DragonFly DragonFlyArch, FreeBsd FreeBsdArch,
       Illumos IllumosArch, IOs IOsArch, Js JsArch, Linux LinuxArch, NetBsd NetBsdArch, OpenBsd OpenBsdArch,
       Plan9 Plan9Arch, Solaris SolarisArch, WasiP1 WasiP1Arch, Windows WindowsArch)
}
pub fn platforms(c: &mut Case) {
    let mut all: Vec<String> = Vec::new();
    for (os, archs) in recog::PLATFORMS {
        all.push((*os).to_owned());
        for a in *archs {
            all.push(format!("{os}/{a}"));
            for v in recog::variants(a) {
                all.push(format!("{os}/{a}/{v}"));
            }
        }
    }
    let mut oses: Vec<String> = recog::PLATFORMS.iter().map(|p| p.0.to_owned()).collect();
    let mut arches: Vec<String> = Vec::new();
    for a in recog::ARCHES {
        arches.push((*a).to_owned());
        for v in recog::variants(a) {
            arches.push(format!("{a}/{v}"));
        }
    }
    for x in ["wasi", "Linux", "", "mac", "android "] {
        oses.push(x.into());
    }
    for x in ["arm64/v9", "amd64/v0", "x86_64", "", "arm/v4", "arm64/", "386/v1"] {
        arches.push(x.into());
    }
    // every operating system with every architecture, by every route
    for o in &oses {
        for a in arches.iter().map(Some).chain([None]) {
            let text = match a {
                Some(a) => format!("{o}/{a}"),
                None => o.clone(),
            };
            let ok = all.contains(&text);
            c.event(if ok { "supported" } else { "unsupported" });
            c.seen(&text);
            let parsed: Option<Platform> = text.parse().ok();
            c.check(parsed.is_some() == ok, if ok { "platform:rejects" } else { "platform:accepts" }, || text.clone());
            let os: Option<platform::Os> = o.parse().ok();
            let arch: Option<Option<platform::Arch>> = match a {
                Some(a) => a.parse().ok().map(Some),
                None => Some(None),
            };
            c.check(os.is_some() == recog::PLATFORMS.iter().any(|p| p.0 == o), "platform:os", || o.clone());
            if let (Some(os), Some(arch)) = (os, arch) {
                let built = match arch {
                    Some(x) => with_arch(c, os, x),
                    None => Some(Platform::from(os)),
                };
                c.check(built == parsed, "platform:from parts", || format!("{text}: {built:?} vs {parsed:?}"));
            }
            let Some(p) = parsed else { continue };
            c.check(p.to_string() == text && p.as_str() == text, "platform:text", || format!("{text}: {p}"));
            c.check(p.os().to_string() == *o && Some(p.os()) == os, "platform:os of", || format!("{text}: {}", p.os()));
            let ga = p.arch().map(|x| x.to_string());
            c.check(ga.as_ref() == a, "platform:arch of", || format!("{text}: {ga:?}"));
            let y = serde_yaml::to_value(&p).ok();
            c.check(y == Some(YamlValue::String(text.clone())), "platform:yaml", || text.clone());
            let q: Option<Platform> = y.and_then(|y| serde_yaml::from_value(y).ok());
            c.check(q == Some(p), "platform:yaml back", || text.clone());
        }
    }
    // distinct texts are distinct values
    let vals: Vec<Platform> = all.iter().filter_map(|t| t.parse().ok()).collect();
    for i in 0..vals.len() {
        for j in 0..vals.len() {
            c.event("pairs");
            if (vals[i] == vals[j]) != (all[i] == all[j]) {
                c.fail("platform:equality", format!("{} and {}", all[i], all[j]));
            }
        }
    }
    c.sample(|| format!("{} supported platform texts", all.len()));
}
pub fn platform_texts(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..20 {
        let s = g::g_platform(&mut r);
        let s = if r.bool() { g::mutate(&mut r, &s, "linuxwd/armv678 46L") } else { s };
        let want = recog::platform(&s);
        if want == Rec::U {
            continue;
        }
        let got = s.parse::<Platform>().ok();
        c.event("texts");
        c.seen(&s);
        c.check(got.is_some() == (want == Rec::A), "platform:text accept", || format!("{s:?}: {got:?}"));
        if let Some(p) = got {
            c.check(p.to_string() == s, "platform:text", || format!("{s:?}: {p}"));
        }
        let y: Option<Platform> = serde_yaml::from_value(YamlValue::String(s.clone())).ok();
        c.check(y == s.parse().ok(), "platform:yaml route", || s.clone());
        let y = svc("platform", YamlValue::String(s.clone())).and_then(|s| s.platform);
        c.check(y == s.parse().ok(), "platform:service field", || s.clone());
    }
}
/// Every supported text and its near misses, given to every type by every route.
pub fn platform_routes(c: &mut Case) {
    use std::str::FromStr;
    let mut all: Vec<String> = vec![];
    let mut oses: Vec<String> = vec![];
    let mut arches: Vec<String> = vec![];
    for (os, archs) in recog::PLATFORMS {
        oses.push((*os).to_owned());
        all.push((*os).to_owned());
        for a in *archs {
            all.push(format!("{os}/{a}"));
            all.extend(recog::variants(a).iter().map(|v| format!("{os}/{a}/{v}")));
        }
    }
    for a in recog::ARCHES {
        arches.push((*a).to_owned());
        arches.extend(recog::variants(a).iter().map(|v| format!("{a}/{v}")));
    }
    let mut r = c.rng.clone();
    let texts: Vec<&String> = all.iter().chain(&arches).collect();
    let base = texts[c.index as usize % texts.len()].clone();
    let mut near: Vec<String> = vec![base.clone(), base.to_uppercase(), base.replace('/', "-"), base.replace('/', "\\"), base.replace('/', "//"), base.replace('/', ":"), String::new()];
    for x in [" ", "\n", "\t", "\0", "/", ".", "\u{feff}", "\u{a0}", "\u{2003}", "\"", "v", "/v1", "/v8", "/v6", "?", ",", "\r\n"] {
        near.push(format!("{base}{x}"));
        near.push(format!("{x}{base}"));
    }
    for (i, ch) in base.char_indices() {
        near.push(format!("{}{}", &base[..i], &base[i + ch.len_utf8()..]));
        near.push(format!("{}{}{}", &base[..i], ch.to_ascii_uppercase(), &base[i + ch.len_utf8()..]));
        near.push(format!("{} {}", &base[..i], &base[i..]));
    }
    if let Some((a, b)) = base.split_once('/') {
        near.extend([a.to_owned(), b.to_owned(), format!("{b}/{a}"), format!("{a}/ {b}"), format!("{a} /{b}"), format!("{a}/{a}/{b}")]);
    }
    for _ in 0..4 {
        near.push(g::mutate(&mut r, &base, "linuxwd/armv678 46L"));
    }
    fn one<T>(c: &mut Case, what: &str, text: &str, known: bool)
    where
        T: FromStr + for<'a> TryFrom<&'a str> + serde::de::DeserializeOwned + serde::Serialize + std::fmt::Display + AsRef<str> + PartialEq + std::fmt::Debug,
    {
        let r = crate::mon::quiet_catch(|| {
            let v = YamlValue::String(text.to_owned());
            let json = serde_json::to_string(text).unwrap_or_default();
            [
                ("FromStr", text.parse::<T>().ok()),
                ("TryFrom<&str>", T::try_from(text).ok()),
                ("a value", serde_yaml::from_value(v.clone()).ok()),
                ("YAML", serde_yaml::to_string(&v).ok().and_then(|y| serde_yaml::from_str(&y).ok())),
                ("JSON", serde_json::from_str(&json).ok()),
                ("an owned string", serde_json::from_value(serde_json::Value::String(text.to_owned())).ok()),
            ]
        });
        let Ok(r) = r else { return c.fail(format!("panic:{what}"), format!("{text:?}")) };
        for (route, v) in r {
            c.event(if known { "routes of known texts" } else { "routes of unknown texts" });
            match v {
                None if known => c.fail(format!("{what}:{route} rejects"), format!("{text:?}")),
                Some(v) if !known => c.fail(format!("{what}:{route} accepts"), format!("{text:?} as {v:?}")),
                Some(v) => {
                    let shown = [v.to_string(), v.as_ref().to_owned(), format!("{v:}"), serde_json::to_value(&v).ok().and_then(|v| v.as_str().map(str::to_owned)).unwrap_or_default()];
                    c.check(shown.iter().all(|s| s == text), &format!("{what}:{route} shown"), || format!("{text:?}: {shown:?}"));
                }
                None => {}
            }
        }
    }
    for s in near {
        c.seen(&s);
        c.sample(|| format!("{s:?}"));
        one::<Platform>(c, "Platform", &s, all.contains(&s));
        one::<platform::Os>(c, "Os", &s, oses.contains(&s));
        one::<platform::Arch>(c, "Arch", &s, arches.contains(&s));
        macro_rules! of {
            ($($os:literal $t:ident),*) => {$(
                one::<platform::$t>(c, stringify!($t), &s, all.iter().any(|a| a.split_once('/').is_some_and(|(o, a)| o == $os && a == s)));
            )*};
        }
        of!("aix" AixArch, "android" AndroidArch, "darwin" DarwinArch, "dragonfly" DragonFlyArch, "freebsd" FreeBsdArch, "illumos" IllumosArch, "ios" IOsArch,
            "js" JsArch, "linux" LinuxArch, "netbsd" NetBsdArch, "openbsd" OpenBsdArch, "plan9" Plan9Arch, "solaris" SolarisArch, "wasip1" WasiP1Arch, "windows" WindowsArch);
    }
}
#[allow(dead_code)]
fn unused(_: MapKey) {}
