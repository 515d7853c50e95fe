//! C27: constructors and conversions keep exactly what they are given.
//!
//! Every value made by a constructor or a conversion is compared, by its `Debug` text and by `==`,
//! with the value written out as a literal of its public fields and variants; values of types
//! without public fields are compared through what they convert back to.
use crate::mon::Case;
use crate::rng::Rng;
use crate::strs as g;
use compose_spec::service::blkio_config::Weight;
use compose_spec::service::build::{self, Build, Cache, CacheOption, CacheType, Context};
use compose_spec::network::Driver as NetworkDriver;
use compose_spec::service::deploy::EndpointMode;
use compose_spec::service::deploy::resources::{Capability, Count, Cpus, Device as GpuDevice};
use compose_spec::service::device::{MajorMinorNumber, Permissions};
use compose_spec::service::image::{Digest, Name as ImageName, Tag, TagOrDigest};
use compose_spec::service::network_config::{NetworkMode, Networks as ServiceNetworks};
use compose_spec::service::ports::{Port, Range, ShortPort, ShortRanges};
use compose_spec::service::user::Name as UserName;
use compose_spec::service::volumes::mount::{
    Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions,
};
use compose_spec::service::volumes::{HostPath, SELinux, ShortOptions, ShortVolume, Source};
use compose_spec::service::{
    env_file, healthcheck, ports, AbsolutePath, ByteValue, Command, ConfigOrSecret, CpuSet, EnvFile, Expose, Healthcheck, IdOrName, Ipc,
    Image, Limit, Link, MacAddress, NetworkConfig, OomScoreAdj, Percent, Ulimit, User, VolumesFrom, VolumesFromSource,
};
use compose_spec::{
    config, secret, Config, Extensions, Identifier, Include, ItemOrList, ListOrMap, Network, Resource, Secret, ShortOrLong, StringOrNumber, Value,
};
use indexmap::{IndexMap, IndexSet};
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::num::NonZeroU16;
use std::path::{Path, PathBuf};

/// The two values have the same text and compare equal.
fn same<T: Debug + PartialEq>(c: &mut Case, what: &str, got: T, want: T) {
    c.event("conversions compared");
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    if a != b || got != want {
        c.fail(&format!("built:{what}"), format!("{what}: {a}, expected {b}"));
    }
}
/// An integer near the limits of its type or anywhere in it.
fn near(r: &mut Rng, points: &[i64]) -> i64 {
    if crate::dict::number_now(r, 16, 5) {
        let n = crate::dict::number_near(r) as i64;
        return if r.chance(1, 4) { n.wrapping_neg() } else { n };
    }
    match r.below(6) {
        4 => r.u64() as u16 as i64,
        5 => r.u64() as i16 as i64,
        0 => r.range(0, 300) as i64 - 150,
        1 => r.u64() as i64,
        _ => r.pick(points).wrapping_add(r.range(0, 4) as i64 - 2),
    }
}
pub fn numbers(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let n = near(&mut r, &[0, 10, 100, 255, 500, 1000, -1000, 1024, 65535, i64::from(u32::MAX), i64::from(i32::MAX), i64::MAX, i64::MIN]);
        c.seen(&n);
        c.sample(|| n.to_string());
        let other = match r.below(6) {
            0..=2 => n,
            3 => n.wrapping_add(r.range(0, 2) as i64 - 1),
            4 => n ^ (1 << r.pick(&[3, 7, 8, 14, 15, 16, 31, 32, 52, 53, 62, 63])),
            _ => n.wrapping_neg(),
        };
        if let Ok(n) = u8::try_from(n) {
            let ok = n <= 100;
            for (w, v) in [("Percent::new", Percent::new(n).ok()), ("Percent: TryFrom<u8>", Percent::try_from(n).ok())] {
                same(c, w, v.map(u8::from), ok.then_some(n));
                same(c, w, v.map(Percent::into_inner), ok.then_some(n));
                if let (Some(v), Ok(o)) = (v, u8::try_from(other)) {
                    same(c, "Percent == u8", v == o, n == o);
                    if let Ok(p) = Percent::new(o) {
                        same(c, "Percent order", v.cmp(&p), n.cmp(&o));
                    }
                }
            }
            same(c, "Cpus: From<u8>", Cpus::from(n).into_inner(), f64::from(n));
        }
        if let Ok(n) = u16::try_from(n) {
            let ok = (10..=1000).contains(&n);
            let mut ways = vec![("Weight::new(u16)", Weight::new(n).ok()), ("Weight: TryFrom<u16>", Weight::try_from(n).ok())];
            if let Some(z) = NonZeroU16::new(n) {
                ways.push(("Weight::new(NonZeroU16)", Weight::new(z).ok()));
                ways.push(("Weight: TryFrom<NonZeroU16>", Weight::try_from(z).ok()));
            }
            for (w, v) in ways {
                same(c, w, v.map(u16::from), ok.then_some(n));
                same(c, w, v.map(NonZeroU16::from), if ok { NonZeroU16::new(n) } else { None });
                same(c, w, v.map(|v| v.into_inner().get()), ok.then_some(n));
                same(c, w, v.map(|v| v.to_string()), ok.then(|| n.to_string()));
                if let (Some(v), Ok(o)) = (v, u16::try_from(other)) {
                    same(c, "Weight == u16", v == o, n == o);
                    if let Some(z) = NonZeroU16::new(o) {
                        same(c, "Weight == NonZeroU16", v == z, n == o);
                    }
                }
            }
            same(c, "Cpus: From<u16>", Cpus::from(n).into_inner(), f64::from(n));
            let m = MajorMinorNumber::from(n);
            same(c, "MajorMinorNumber: From<u16>", m, MajorMinorNumber::Integer(n));
            if let Ok(o) = u16::try_from(other) {
                same(c, "MajorMinorNumber == u16", m == o, n == o);
                same(c, "MajorMinorNumber::All == u16", MajorMinorNumber::All == o, false);
                let p = Range::from(n);
                same(c, "Range == u16", p == o, n == o);
            }
        }
        if let Ok(n) = i16::try_from(n) {
            let ok = (-1000..=1000).contains(&n);
            for (w, v) in [("OomScoreAdj::new", OomScoreAdj::new(n).ok()), ("OomScoreAdj: TryFrom<i16>", OomScoreAdj::try_from(n).ok())] {
                same(c, w, v.map(i16::from), ok.then_some(n));
                if let (Some(v), Ok(o)) = (v, i16::try_from(other)) {
                    same(c, "OomScoreAdj == i16", v == o, n == o);
                }
            }
            same(c, "Cpus: TryFrom<i16>", Cpus::try_from(n).ok().map(f64::from), (n >= 0).then(|| f64::from(n)));
        }
        if let Ok(n) = i8::try_from(n) {
            same(c, "Cpus: TryFrom<i8>", Cpus::try_from(n).ok().map(f64::from), (n >= 0).then(|| f64::from(n)));
        }
        if let Ok(n) = i32::try_from(n) {
            same(c, "Cpus: TryFrom<i32>", Cpus::try_from(n).ok().map(f64::from), (n >= 0).then(|| f64::from(n)));
        }
        if let Ok(n) = u32::try_from(n) {
            same(c, "Cpus: From<u32>", f64::from(Cpus::from(n)), f64::from(n));
            same(c, "Limit<u32>: From<u32>", Limit::<u32>::from(n), Limit::Value(n));
            same(c, "IdOrName: From<u32>", IdOrName::from(n), IdOrName::Id(n));
            same(c, "User: From<u32>", User::from(n), User { user: IdOrName::Id(n), group: None });
            let k = r.u64() as u32;
            same(c, "User: From<(u32, u32)>", User::from((n, k)), User { user: IdOrName::Id(n), group: Some(IdOrName::Id(k)) });
        }
        {
            // the negative ones stand for the upper half
            let (n, o) = (n as u64, other as u64);
            let count = Count::from(n);
            same(c, "Count: From<u64>", count, Count::Integer(n));
            same(c, "Count == u64", count == o, n == o);
            same(c, "Count::All == u64", Count::All == o, false);
            same(c, "Count::All == Count", Count::All == count, false);
            same(c, "Limit<u64>: From<u64>", Limit::<u64>::from(n), Limit::Value(n));
            let l = Limit::Value(n);
            let want = || Ulimit { soft: l, hard: l, extensions: Extensions::new() };
            same(c, "Ulimit: From<u64>", Ulimit::from(n), want());
            same(c, "Ulimit: From<Limit>", Ulimit::from(l), want());
            same(c, "ShortOrLong<Limit, Ulimit>: From<u64>", ShortOrLong::<Limit<u64>, Ulimit>::from(n), ShortOrLong::Short(l));
            same(c, "ShortOrLong<Limit, Ulimit>: From<Limit>", ShortOrLong::<Limit<u64>, Ulimit>::from(l), ShortOrLong::Short(l));
            same(c, "Limit: From<ByteValue>", Limit::from(ByteValue::Bytes(n)), Limit::Value(ByteValue::Bytes(n)));
            let u = Limit::<u64>::Unlimited;
            same(c, "Ulimit: From<Limit::Unlimited>", Ulimit::from(u), Ulimit { soft: u, hard: u, extensions: Extensions::new() });
        }
        // floats
        let f = match r.below(6) {
            0 => crate::dict::float(&mut r).unwrap_or(0.1),
            1 => f64::from_bits(r.u64()),
            2 => *r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1.5, -0.5]),
            3 => n as f64 / 1000.0,
            _ => n as f64,
        };
        let bits = |v: Option<Cpus>| v.map(|v| v.into_inner().to_bits());
        if f != 0.0 || f.is_sign_positive() {
            let ok = f.is_finite() && f >= 0.0;
            for (w, v) in [("Cpus::new(f64)", Cpus::new(f).ok()), ("Cpus: TryFrom<f64>", Cpus::try_from(f).ok())] {
                same(c, w, bits(v), ok.then_some(f.to_bits()));
                if let Some(v) = v {
                    let o = if r.bool() { f } else { other as f64 };
                    same(c, "Cpus == f64", v == o, f == o);
                    same(c, "Cpus order f64", v.partial_cmp(&o), f.partial_cmp(&o));
                    same(c, "Cpus < f64", (v < o, v > o, v <= o, v >= o), (f < o, f > o, f <= o, f >= o));
                    if let Ok(q) = Cpus::new(o) {
                        same(c, "Cpus order", v.partial_cmp(&q), f.partial_cmp(&o));
                        same(c, "Cpus == Cpus", v == q, f == o);
                    }
                }
            }
            let f = f as f32;
            if f != 0.0 || f.is_sign_positive() {
                let ok = f.is_finite() && f >= 0.0;
                same(c, "Cpus: TryFrom<f32>", bits(Cpus::try_from(f).ok()), ok.then(|| f64::from(f).to_bits()));
                same(c, "Cpus::new(f32)", bits(Cpus::new(f).ok()), ok.then(|| f64::from(f).to_bits()));
            }
        }
    }
    // sets of numbers
    let set: BTreeSet<u64> = (0..r.range(0, 5)).map(|_| near(&mut r, &[0, 1, 7, 64, i64::MAX]) as u64).collect();
    same(c, "CpuSet: From<BTreeSet>", BTreeSet::from(CpuSet::from(set.clone())), set.clone());
    same(c, "CpuSet is_empty", CpuSet::from(set.clone()).is_empty(), set.is_empty());
    let mac: [u8; 6] = std::array::from_fn(|_| r.u64() as u8);
    let m = MacAddress::from(mac);
    same(c, "MacAddress: From<[u8; 6]>", <[u8; 6]>::from(m), mac);
    same(c, "MacAddress: AsRef<[u8]>", AsRef::<[u8]>::as_ref(&m).to_vec(), mac.to_vec());
}
pub fn ports(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..4 {
        let p = g::g_port16(&mut r);
        let q = if r.bool() { p.saturating_add(r.range(0, 12) as u16) } else { g::g_port16(&mut r) };
        let (a, b) = (p.min(q), p.max(q));
        c.seen(&(a, b));
        c.sample(|| format!("{a}-{b}"));
        let (Ok(one), Ok(range)) = (Range::new(a, None), Range::new(a, Some(b))) else { return c.fail("built:Range::new", format!("{a}-{b} is rejected")) };
        same(c, "Range: From<u16>", Range::from(a), one);
        // comparison with standard ranges: exactly the same two ends
        for _ in 0..3 {
            let x = if r.bool() { a } else { a.saturating_add(r.range(0, 3) as u16).saturating_sub(1) };
            let y = match r.below(4) {
                0 => b,
                1 => a,
                2 => g::g_port16(&mut r),
                _ => b.saturating_add(r.range(0, 3) as u16).saturating_sub(1),
            };
            same(c, "Range == RangeInclusive", range == (x..=y), (a, b) == (x, y));
            same(c, "Range == RangeInclusive", one == (x..=y), (a, a) == (x, y));
            same(c, "Range == u16", range == x, a == b && a == x);
            if let Ok(o) = Range::new(x, Some(y)) {
                same(c, "Range == Range", range == o, (a, b) == (x, y));
                same(c, "Range == Range", one == o, (a, a) == (x, y));
            }
        }
        let want = |host: Option<Range>, container: Range| (host, container);
        let parts = |s: &ShortRanges| (s.host(), s.container());
        same(c, "ShortRanges: From<u16>", parts(&ShortRanges::from(a)), want(None, one));
        same(c, "ShortRanges: From<Range>", parts(&ShortRanges::from(range)), want(None, range));
        let sp = |ranges: ShortRanges| ShortPort { host_ip: None, ranges, protocol: None };
        same(c, "ShortPort: From<u16>", ShortPort::from(a), sp(ShortRanges::from(a)));
        same(c, "ShortPort: From<Range>", ShortPort::from(range), sp(ShortRanges::from(range)));
        let host = Range::new(a, Some(b)).ok();
        if let Ok(both) = ShortRanges::new(host, range) {
            same(c, "ShortRanges::new", parts(&both), want(host, range));
            same(c, "ShortPort::new", ShortPort::new(both), sp(both));
            same(c, "ShortPort: From<ShortRanges>", ShortPort::from(both), sp(both));
        } else {
            c.fail("built:ShortRanges::new", format!("{a}-{b} on both sides is rejected"));
        }
        let port = || Port { name: None, target: a, published: None, host_ip: None, protocol: None, app_protocol: None, mode: None, extensions: Extensions::new() };
        same(c, "Port::new", Port::new(a), port());
        same(c, "Port: From<u16>", Port::from(a), port());
        same(c, "Expose: From<u16>", Expose::from(a), Expose { range: one, protocol: None });
        same(c, "Expose: From<Range>", Expose::from(range), Expose { range, protocol: None });
        same(c, "ShortOrLong: From<ShortPort>", ShortOrLong::<ShortPort, Port>::from(ShortPort::from(a)), ShortOrLong::Short(ShortPort::from(a)));
        same(c, "ShortOrLong: From<Port>", ShortOrLong::<ShortPort, Port>::from(port()), ShortOrLong::Long(port()));
    }
}
/// Words that mean something in one place or another, where a plain name may stand too.
const KEYWORDS: &[&str] = &[
    "none", "host", "default", "shareable", "service", "container", "private", "external", "bridge", "vip", "dnsrr", "tcp", "udp", "gpu", "tpu", "all", "ro",
    "rw", "registry", "local", "type", "ref", "root", "CMD", "NONE", "null", "true", "unlimited", "max", "soft", "hard", "0", "1",
];
fn id(r: &mut Rng) -> Identifier {
    let word = match r.below(6) {
        0 => *r.pick(KEYWORDS),
        1 => crate::dict::word(r),
        _ => "",
    };
    Identifier::new(word).unwrap_or_else(|_| Identifier::new(g::g_identifier(r)).unwrap())
}
/// What a variant is made of comes back out of it, whatever it reads like.
pub fn wrapped(c: &mut Case) {
    let mut r = c.rng.clone();
    let s = match r.below(6) {
        0 | 1 => (*r.pick(KEYWORDS)).to_owned(),
        2 => crate::dict::word(&mut r).to_owned(),
        3 => g::g_free(&mut r),
        4 => format!("{}{}", r.pick(&["service:", "container:", "type=", "default=", "none", "host "]), g::g_identifier(&mut r)),
        _ => g::g_identifier(&mut r),
    };
    let (x, y) = (id(&mut r), id(&mut r));
    c.seen(&(&s, &x, &y));
    c.sample(|| format!("{s:?} {x} {y}"));
    /// All the ways out as text.
    macro_rules! text {
        ($v:expr, $want:expr, $($to:ident),*) => {{
            let (v, want): (_, String) = ($v, $want);
            same(c, stringify!($v), (v.to_string(), format!("{v}"), String::from(v.clone())), (want.clone(), want.clone(), want.clone()));
            $(text!(@$to v, want, stringify!($v));)*
        }};
        (@cow $v:ident, $want:ident, $what:expr) => { same(c, $what, Cow::<'static, str>::from($v.clone()).into_owned(), $want.clone()) };
        (@str $v:ident, $want:ident, $what:expr) => { same(c, $what, ($v.as_str().to_owned(), AsRef::<str>::as_ref(&$v).to_owned()), ($want.clone(), $want.clone())) };
    }
    text!(Ipc::Shareable, "shareable".into(), cow);
    text!(Ipc::Service(x.clone()), format!("service:{x}"), cow);
    text!(Ipc::Other(s.clone()), s.clone(), cow);
    text!(NetworkMode::None, "none".into(), cow);
    text!(NetworkMode::Host, "host".into(), cow);
    text!(NetworkMode::Service(x.clone()), format!("service:{x}"), cow);
    text!(NetworkMode::Container(y.clone()), format!("container:{y}"), cow);
    text!(NetworkMode::Other(s.clone()), s.clone(), cow);
    text!(build::Network::Identifier(x.clone()), x.to_string(), cow, str);
    text!(build::Network::None, "none".into(), cow, str);
    text!(EndpointMode::VIp, "vip".into(), cow, str);
    text!(EndpointMode::DnsRR, "dnsrr".into(), cow, str);
    text!(EndpointMode::Other(s.clone()), s.clone(), cow, str);
    text!(ports::Protocol::Tcp, "tcp".into(), cow, str);
    text!(ports::Protocol::Udp, "udp".into(), cow, str);
    text!(ports::Protocol::Other(s.clone()), s.clone(), cow, str);
    text!(Capability::Gpu, "gpu".into(), cow, str);
    text!(Capability::Tpu, "tpu".into(), cow, str);
    text!(Capability::Other(s.clone()), s.clone(), cow, str);
    text!(NetworkDriver::Host, "host".into(), cow, str);
    text!(NetworkDriver::None, "none".into(), cow, str);
    text!(NetworkDriver::Other(s.clone()), s.clone(), cow, str);
    text!(VolumesFromSource::Service(x.clone()), x.to_string(),);
    text!(VolumesFromSource::Container(y.clone()), format!("container:{y}"),);
    for alias in [None, Some(s.clone())] {
        let want = alias.as_ref().map_or(x.to_string(), |a| format!("{x}:{a}"));
        text!(Link { service: x.clone(), alias: alias.clone() }, want,);
    }
    let n = near(&mut r, &[0, u32::MAX as i64]) as u32;
    text!(IdOrName::Id(n), n.to_string(),);
    if let Ok(name) = UserName::new(s.as_str()) {
        text!(IdOrName::Name(name.clone()), s.clone(),);
        same(c, "IdOrName::as_name", IdOrName::Name(name.clone()).as_name().cloned(), Some(name));
    }
    same(c, "IdOrName::as_id", IdOrName::Id(n).as_id(), Some(n));
    // the parts
    same(c, "build::Network::into_option", build::Network::Identifier(x.clone()).into_option(), Some(x.clone()));
    same(c, "Ipc::as_service", (Ipc::Service(x.clone()).as_service().cloned(), Ipc::Other(s.clone()).as_service().cloned()), (Some(x.clone()), None));
    same(c, "Ipc::as_other", (Ipc::Other(s.clone()).as_other().cloned(), Ipc::Service(x.clone()).as_other().cloned()), (Some(s.clone()), None));
    let modes = [NetworkMode::Service(x.clone()), NetworkMode::Container(x.clone()), NetworkMode::Other(s.clone())];
    for (k, m) in modes.iter().enumerate() {
        same(
            c,
            "NetworkMode: parts",
            (m.as_service().cloned(), m.as_container().cloned(), m.as_other().cloned()),
            ((k == 0).then(|| x.clone()), (k == 1).then(|| x.clone()), (k == 2).then(|| s.clone())),
        );
    }
    same(c, "Source: From<Identifier>", (Source::from(x.clone()), Source::from(x.clone()).to_string()), (Source::Volume(x.clone()), x.to_string()));
    if let Ok(o) = CacheOption::new(s.as_str()) {
        let t = CacheType::Other(o.clone());
        same(c, "CacheType::Other", (t.to_string(), t.as_other().cloned(), t.as_registry().cloned()), (format!("type={s}"), Some(o.clone()), None));
        let cache = Cache::from(t.clone());
        same(c, "Cache: From<CacheType>", (cache.cache_type, cache.options), (t, IndexMap::new()));
    }
    if let Ok(i) = build::SshAuthId::new(s.as_str(), x.as_str()) {
        let a = build::SshAuth::Id(i.clone());
        same(c, "SshAuth::Id", (a.id().map(str::to_owned), a.path().map(Path::to_owned), a.as_id().cloned(), a.to_string()), (Some(s.clone()), Some(PathBuf::from(x.as_str())), Some(i), format!("{s}={x}")));
    }
    // numbers and booleans that are texts stay texts
    same(c, "Value: From<String>", (Value::from(s.clone()), Value::from(s.as_str()), Value::from(s.clone().into_boxed_str()), Value::from(Cow::Borrowed(s.as_str()))), (Value::String(s.clone()), Value::String(s.clone()), Value::String(s.clone()), Value::String(s.clone())));
    same(c, "Value::String", (Value::String(s.clone()).as_string().cloned(), Value::String(s.clone()).to_string(), String::from(Value::String(s.clone()))), (Some(s.clone()), s.clone(), s.clone()));
    same(c, "StringOrNumber::String", (StringOrNumber::String(s.clone()).as_string().cloned(), StringOrNumber::from(s.clone()), StringOrNumber::String(s.clone()).to_string()), (Some(s.clone()), StringOrNumber::String(s.clone()), s.clone()));
    same(c, "Command", (Command::from(s.clone()), Command::from(vec![s.clone()])), (Command::String(s.clone()), Command::List(vec![s.clone()])));
    same(c, "Test", (healthcheck::Test::from(s.clone()), healthcheck::Test::from(vec![s.clone()])), (healthcheck::Test::ShellCommand(s.clone()), healthcheck::Test::Command(vec![s.clone()])));
}
pub fn mounts(c: &mut Case) {
    let mut r = c.rng.clone();
    let target = AbsolutePath::new(g::g_abs_path(&mut r)).unwrap();
    let host = HostPath::new(g::g_host_path(&mut r)).unwrap();
    let vol = id(&mut r);
    let name = r.pick_str(&["csi", "", "a/b", "x:y"]);
    c.seen(&(target.as_path(), host.as_path(), vol.as_str()));
    c.sample(|| format!("{host:?} {vol} {target:?}"));
    let plain = || Common { target: target.clone(), read_only: false, consistency: None, extensions: Extensions::new() };
    same(c, "Common::new", Common::new(target.clone()), plain());
    same(c, "Common: From<AbsolutePath>", Common::from(target.clone()), plain());
    let common = Common {
        read_only: r.bool(),
        consistency: r.bool().then(|| r.pick_str(&["cached", ""])),
        extensions: if r.bool() { std::iter::once((compose_spec::ExtensionKey::new("x-a").unwrap(), compose_spec::YamlValue::from(r.range(0, 9)))).collect() } else { Extensions::new() },
        ..plain()
    };
    let volume = Volume { source: None, volume: None, common: common.clone() };
    same(c, "mount::Volume::new", Volume::new(common.clone()), volume.clone());
    same(c, "mount::Volume: From<Common>", Volume::from(common.clone()), volume.clone());
    let tmpfs = |common| Tmpfs { tmpfs: None, common };
    same(c, "mount::Tmpfs::new", Tmpfs::new(common.clone()), tmpfs(common.clone()));
    same(c, "mount::Tmpfs: From<Common>", Tmpfs::from(common.clone()), tmpfs(common.clone()));
    same(c, "mount::Tmpfs::from_target", Tmpfs::from_target(target.clone()), tmpfs(plain()));
    same(c, "mount::Tmpfs: From<AbsolutePath>", Tmpfs::from(target.clone()), tmpfs(plain()));
    let bind = Bind { source: host.clone(), bind: None, common: common.clone() };
    same(c, "mount::Bind::new", Bind::new(host.clone(), common.clone()), bind.clone());
    same(c, "mount::Bind: From<(HostPath, Common)>", Bind::from((host.clone(), common.clone())), bind.clone());
    let pipe = NamedPipe { source: host.clone(), common: common.clone() };
    same(c, "mount::NamedPipe: From<(HostPath, Common)>", NamedPipe::from((host.clone(), common.clone())), pipe.clone());
    let cluster = Cluster { source: name.clone(), common: common.clone() };
    same(c, "mount::Cluster: From<(String, Common)>", Cluster::from((name.clone(), common.clone())), cluster.clone());
    same(c, "Mount: From<Volume>", Mount::from(volume.clone()), Mount::Volume(volume.clone()));
    same(c, "Mount: From<Bind>", Mount::from(bind.clone()), Mount::Bind(bind.clone()));
    same(c, "Mount: From<Tmpfs>", Mount::from(tmpfs(common.clone())), Mount::Tmpfs(tmpfs(common.clone())));
    same(c, "Mount: From<NamedPipe>", Mount::from(pipe.clone()), Mount::NamedPipe(pipe.clone()));
    same(c, "Mount: From<Cluster>", Mount::from(cluster.clone()), Mount::Cluster(cluster.clone()));
    same(c, "ShortOrLong: From<Mount>", ShortOrLong::<ShortVolume, Mount>::from(Mount::Bind(bind.clone())), ShortOrLong::Long(Mount::Bind(bind.clone())));
    // the queries of a mount report its parts
    let host_text = host.as_path().to_str().unwrap().to_owned();
    let named = Mount::Volume(Volume { source: Some(vol.clone()), ..volume.clone() });
    for (m, kind, source) in [
        (Mount::Volume(volume.clone()), "volume", None),
        (named, "volume", Some(vol.to_string())),
        (Mount::Bind(bind.clone()), "bind", Some(host_text.clone())),
        (Mount::Tmpfs(tmpfs(common.clone())), "tmpfs", None),
        (Mount::NamedPipe(pipe), "npipe", Some(host_text)),
        (Mount::Cluster(cluster), "cluster", Some(name)),
    ] {
        same(c, "Mount::kind", m.kind(), kind);
        same(c, "Mount::source_to_string", m.source_to_string(), source);
        same(c, "Mount::common", m.common().clone(), common.clone());
        let is = [m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()];
        same(c, "Mount::is_*", is.to_vec(), ["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| k == kind).to_vec());
        let inner = m.as_volume().map(|v| format!("{v:?}")).or(m.as_bind().map(|v| format!("{v:?}"))).or(m.as_tmpfs().map(|v| format!("{v:?}"))).or(m.as_named_pipe().map(|v| format!("{v:?}"))).or(m.as_cluster().map(|v| format!("{v:?}")));
        let text = format!("{m:?}");
        same(c, "Mount::as_*", inner.is_some_and(|i| text.ends_with(&format!("({i})"))), true);
    }
    let prop = *r.pick(&[BindPropagation::Private, BindPropagation::RPrivate, BindPropagation::Shared, BindPropagation::RShared, BindPropagation::Slave, BindPropagation::RSlave]);
    let se = *r.pick(&[SELinux::Shared, SELinux::Private]);
    let opts = |propagation, selinux| BindOptions { propagation, selinux, create_host_path: false, extensions: Extensions::new() };
    same(c, "BindOptions: From<BindPropagation>", BindOptions::from(prop), opts(Some(prop), None));
    same(c, "BindOptions: From<Option<BindPropagation>>", BindOptions::from(Some(prop)), opts(Some(prop), None));
    same(c, "BindOptions: From<Option<BindPropagation>>", BindOptions::from(None::<BindPropagation>), opts(None, None));
    same(c, "BindOptions: From<SELinux>", BindOptions::from(se), opts(None, Some(se)));
    same(c, "BindOptions: From<Option<SELinux>>", BindOptions::from(Some(se)), opts(None, Some(se)));
    same(c, "BindOptions: From<Option<SELinux>>", BindOptions::from(None::<SELinux>), opts(None, None));
    same(c, "BindOptions::default", BindOptions::default(), opts(None, None));
    same(c, "VolumeOptions::default", VolumeOptions::default(), VolumeOptions { nocopy: false, subpath: None, extensions: Extensions::new() });
    same(c, "TmpfsOptions::default", TmpfsOptions::default(), TmpfsOptions { size: None, mode: None, extensions: Extensions::new() });
    let letter = if se == SELinux::Shared { 'z' } else { 'Z' };
    same(c, "char: From<SELinux>", char::from(se), letter);
    same(c, "SELinux::as_char", se.as_char(), letter);
    // sources and short volumes
    same(c, "Source: From<Identifier>", Source::from(vol.clone()), Source::Volume(vol.clone()));
    same(c, "Source: From<HostPath>", Source::from(host.clone()), Source::HostPath(host.clone()));
    let as_host = HostPath::new(target.as_path().to_owned()).unwrap();
    same(c, "HostPath: From<AbsolutePath>", HostPath::from(target.clone()), as_host.clone());
    same(c, "Source: From<AbsolutePath>", Source::from(target.clone()), Source::HostPath(as_host));
    let src = if r.bool() { Source::Volume(vol) } else { Source::HostPath(host.clone()) };
    let so = || ShortOptions { source: src.clone(), read_only: false, selinux: None };
    same(c, "ShortOptions::new", ShortOptions::new(src.clone()), so());
    same(c, "ShortOptions: From<Source>", ShortOptions::from(src.clone()), so());
    let sv = || ShortVolume { container_path: target.clone(), options: None };
    same(c, "ShortVolume::new", ShortVolume::new(target.clone()), sv());
    same(c, "ShortVolume: From<AbsolutePath>", ShortVolume::from(target.clone()), sv());
    same(c, "ShortOrLong: From<ShortVolume>", ShortOrLong::<ShortVolume, Mount>::from(sv()), ShortOrLong::Short(sv()));
    // any path, valid or not, through every path type
    let p = match r.below(4) {
        0 => g::g_rel_path(&mut r),
        1 => g::g_host_path(&mut r),
        2 => format!("{}{}", r.pick(&["", ".", "..", "...", "~", "~/", "//", "C:\\", " /", "./", ".a", "..b/"]), g::g_rel_path(&mut r)),
        _ => g::g_abs_path(&mut r),
    };
    let path = Path::new(&p);
    let abs = p.starts_with('/');
    let dotted = abs || matches!(p.split('/').next(), Some("." | ".."));
    let text = |p: &Path| p.as_os_str().to_owned();
    let absolute: [(&str, Option<AbsolutePath>); 7] = [
        ("new", AbsolutePath::new(path).ok()),
        ("PathBuf", AbsolutePath::try_from(path.to_owned()).ok()),
        ("&Path", AbsolutePath::try_from(path).ok()),
        ("Box<Path>", AbsolutePath::try_from(Box::<Path>::from(path)).ok()),
        ("Cow<Path>", AbsolutePath::try_from(Cow::Borrowed(path)).ok()),
        ("String", AbsolutePath::try_from(p.clone()).ok()),
        ("&str", AbsolutePath::try_from(p.as_str()).ok()),
    ];
    for (w, v) in absolute {
        same(c, &format!("AbsolutePath: TryFrom<{w}>"), v.as_ref().map(|v| text(v.as_path())), abs.then(|| text(path)));
        if let Some(v) = v {
            same(c, "PathBuf: From<AbsolutePath>", text(&PathBuf::from(v.clone())), text(path));
            same(c, "Box<Path>: From<AbsolutePath>", text(&Box::<Path>::from(v.clone())), text(path));
            same(c, "AbsolutePath::into_inner", text(&v.clone().into_inner()), text(path));
            same(c, "AbsolutePath: AsRef", (text(AsRef::<Path>::as_ref(&v)), text(AsRef::<PathBuf>::as_ref(&v)), text(std::borrow::Borrow::<Path>::borrow(&v)), text(v.as_inner())), (text(path), text(path), text(path), text(path)));
            same(c, "AbsolutePath == Path", v == *path, true);
            same(c, "AbsolutePath == Path", v == *host.as_path(), path == host.as_path());
        }
    }
    let hosts: [(&str, Option<HostPath>); 7] = [
        ("new", HostPath::new(path).ok()),
        ("PathBuf", HostPath::try_from(path.to_owned()).ok()),
        ("&Path", HostPath::try_from(path).ok()),
        ("Box<Path>", HostPath::try_from(Box::<Path>::from(path)).ok()),
        ("Cow<Path>", HostPath::try_from(Cow::<Path>::Owned(path.to_owned())).ok()),
        ("String", HostPath::try_from(p.clone()).ok()),
        ("&str", HostPath::try_from(p.as_str()).ok()),
    ];
    for (w, v) in hosts {
        same(c, &format!("HostPath: TryFrom<{w}>"), v.as_ref().map(|v| text(v.as_path())), dotted.then(|| text(path)));
        if let Some(v) = v {
            same(c, "PathBuf: From<HostPath>", text(&PathBuf::from(v.clone())), text(path));
            same(c, "Box<Path>: From<HostPath>", text(&Box::<Path>::from(v.clone())), text(path));
            same(c, "HostPath: AsRef", (text(AsRef::<Path>::as_ref(&v)), text(AsRef::<PathBuf>::as_ref(&v)), text(std::borrow::Borrow::<Path>::borrow(&v)), text(v.as_inner())), (text(path), text(path), text(path), text(path)));
            same(c, "HostPath == Path", v == *path, true);
            same(c, "HostPath == Path", v == *target.as_path(), path == target.as_path());
        }
    }
    let sources: [(&str, Option<Source>); 4] = [
        ("PathBuf", Source::try_from(path.to_owned()).ok()),
        ("&Path", Source::try_from(path).ok()),
        ("Box<Path>", Source::try_from(Box::<Path>::from(path)).ok()),
        ("Cow<Path>", Source::try_from(Cow::Borrowed(path)).ok()),
    ];
    for (w, v) in sources {
        same(c, &format!("Source: TryFrom<{w}>"), v, dotted.then(|| Source::HostPath(HostPath::new(path).unwrap())));
    }
}
pub fn others(c: &mut Case) {
    let mut r = c.rng.clone();
    // users
    let (n, k) = (r.u64() as u32 >> r.range(0, 31), r.u64() as u32 >> r.range(0, 31));
    let (a, b) = (UserName::new(g::g_user_name(&mut r)), UserName::new(g::g_user_name(&mut r)));
    if let (Ok(a), Ok(b)) = (a, b) {
        let name = |n: &UserName| IdOrName::Name(n.clone());
        let user = |user, group| User { user, group };
        same(c, "IdOrName: From<Name>", IdOrName::from(a.clone()), name(&a));
        same(c, "User: From<Name>", User::from(a.clone()), user(name(&a), None));
        same(c, "User: From<IdOrName>", User::from(name(&a)), user(name(&a), None));
        same(c, "User: From<IdOrName>", User::from(IdOrName::Id(n)), user(IdOrName::Id(n), None));
        same(c, "User: From<(Name, Name)>", User::from((a.clone(), b.clone())), user(name(&a), Some(name(&b))));
        same(c, "User: From<(Name, u32)>", User::from((a.clone(), n)), user(name(&a), Some(IdOrName::Id(n))));
        same(c, "User: From<(u32, Name)>", User::from((n, b.clone())), user(IdOrName::Id(n), Some(name(&b))));
        same(c, "User: From<(u32, u32)>", User::from((n, k)), user(IdOrName::Id(n), Some(IdOrName::Id(k))));
        same(c, "User: From<(IdOrName, IdOrName)>", User::from((name(&b), IdOrName::Id(k))), user(name(&b), Some(IdOrName::Id(k))));
        for u in [user(name(&a), None), user(IdOrName::Id(n), None), user(name(&a), Some(IdOrName::Id(k))), user(IdOrName::Id(n), Some(name(&b))), user(name(&a), Some(name(&b)))] {
            let part = |p: &IdOrName| match p {
                IdOrName::Id(n) => n.to_string(),
                IdOrName::Name(n) => n.as_str().to_owned(),
            };
            let text = u.group.as_ref().map_or_else(|| part(&u.user), |g| format!("{}:{}", part(&u.user), part(g)));
            same(c, "User text", (u.to_string(), String::from(u.clone())), (text.clone(), text));
            same(c, "IdOrName queries", (u.user.as_id(), u.user.as_name().map(|n| n.as_str().to_owned()), u.user.is_id(), u.user.is_name()), match &u.user {
                IdOrName::Id(n) => (Some(*n), None, true, false),
                IdOrName::Name(n) => (None, Some(n.as_str().to_owned()), false, true),
            });
        }
        c.seen(&(a.as_str(), b.as_str(), n, k));
        c.sample(|| format!("{a}:{b} {n}:{k}"));
    }
    // images and cache locations
    let (iname, itag, idig) = (g::g_image_name(&mut r), g::g_tag(&mut r), g::g_digest(&mut r));
    if let (Ok(name), Ok(tag), Ok(digest)) = (ImageName::new(&iname), Tag::new(&itag), Digest::new(&idig)) {
        let plain = iname.clone();
        let tagged = format!("{iname}:{itag}");
        let digested = format!("{iname}@{idig}");
        let text = |i: Image| i.as_str().to_owned();
        same(c, "TagOrDigest: From<Tag>", matches!(TagOrDigest::from(tag), TagOrDigest::Tag(t) if t.into_inner() == itag), true);
        same(c, "TagOrDigest: From<Digest>", matches!(TagOrDigest::from(digest), TagOrDigest::Digest(t) if t.into_inner() == idig), true);
        same(c, "TagOrDigest::into_tag", (TagOrDigest::from(tag).into_tag().map(|t| t.into_inner().to_owned()), TagOrDigest::from(digest).into_tag().is_none()), (Some(itag.clone()), true));
        same(c, "TagOrDigest::into_digest", (TagOrDigest::from(digest).into_digest().map(|t| t.into_inner().to_owned()), TagOrDigest::from(tag).into_digest().is_none()), (Some(idig.clone()), true));
        same(c, "TagOrDigest::separator", (TagOrDigest::from(tag).separator(), TagOrDigest::from(digest).separator()), (':', '@'));
        same(c, "Image: From<Name>", text(Image::from(name)), plain.clone());
        same(c, "Image: From<(Name, TagOrDigest)>", text(Image::from((name, TagOrDigest::from(tag)))), tagged.clone());
        same(c, "Image: From<(Name, TagOrDigest)>", text(Image::from((name, TagOrDigest::from(digest)))), digested.clone());
        same(c, "Image: From<(Name, Option)>", text(Image::from((name, None::<TagOrDigest>))), plain.clone());
        same(c, "Image: From<(Name, Option)>", text(Image::from((name, Some(TagOrDigest::from(tag))))), tagged.clone());
        same(c, "Image: From<(Name, Option)>", text(Image::from((name, Some(TagOrDigest::from(digest))))), digested.clone());
        for (t, td) in [(&plain, None), (&tagged, Some(TagOrDigest::from(tag))), (&digested, Some(TagOrDigest::from(digest)))] {
            let Ok(i) = Image::parse(t.as_str()) else { c.fail("built:Image::parse", format!("{t:?} is rejected")); continue };
            let (n, d) = <(ImageName, Option<TagOrDigest>)>::from(&i);
            same(c, "(Name, Option): From<&Image>", (n.into_inner().to_owned(), d.map(|d| (d.separator(), d.as_ref().to_owned()))), (iname.clone(), td.map(|d| (d.separator(), d.as_ref().to_owned()))));
            same(c, "Image::into_inner", (i.clone().into_inner(), String::from(i.clone())), (t.clone(), t.clone()));
            same(c, "CacheOption: From<Image>", String::from(CacheOption::from(i.clone())), t.clone());
            let cache = || Cache { cache_type: CacheType::Registry(i.clone()), options: IndexMap::new() };
            same(c, "CacheType: From<Image>", CacheType::from(i.clone()), CacheType::Registry(i.clone()));
            same(c, "Cache: From<Image>", Cache::from(i.clone()), cache());
            same(c, "Cache::from_image", Cache::from_image(i.clone()), cache());
            same(c, "Cache: From<CacheType>", Cache::from(CacheType::Registry(i.clone())), cache());
        }
    }
    // build contexts: paths stay paths, whatever they look like
    let p = if r.bool() { g::g_context(&mut r) } else { g::g_rel_path(&mut r) };
    let ctx = || Context::Path(PathBuf::from(&p));
    same(c, "Context: From<PathBuf>", Context::from(PathBuf::from(&p)), ctx());
    same(c, "Context: From<&Path>", Context::from(Path::new(&p)), ctx());
    same(c, "Context: From<Cow<Path>>", Context::from(Cow::Borrowed(Path::new(&p))), ctx());
    let b = |context: Context| Build { context: Some(context), ..Build::default() };
    same(c, "Build: From<Context>", Build::from(ctx()), b(ctx()));
    same(c, "ShortOrLong: From<Context>", ShortOrLong::<Context, Build>::from(ctx()), ShortOrLong::Short(ctx()));
    same(c, "ShortOrLong: From<Build>", ShortOrLong::<Context, Build>::from(b(ctx())), ShortOrLong::Long(b(ctx())));
    // resources
    let some = r.bool().then(|| r.pick_str(&["n", "", "a b", "x-1"]));
    same(c, "Resource::external", Resource::<Network>::external(some.clone()), Resource::External { name: some.clone() });
    let net = Network { internal: r.bool(), ..Network::default() };
    same(c, "Resource: From<Network>", Resource::from(net.clone()), Resource::Compose(net));
    let vol = compose_spec::Volume { name: some.clone(), ..compose_spec::Volume::default() };
    same(c, "Resource: From<Volume>", Resource::from(vol.clone()), Resource::Compose(vol));
    let s = g::g_free(&mut r);
    for source in [config::Source::File(PathBuf::from(&s)), config::Source::Environment(s.clone()), config::Source::Content(s.clone())] {
        let config = || Config { source: source.clone(), labels: ListOrMap::default(), extensions: Extensions::new() };
        same(c, "Config: From<Source>", Config::from(source.clone()), config());
        same(c, "Resource: From<Config>", Resource::from(config()), Resource::Compose(config()));
    }
    same(c, "config::Source: From<PathBuf>", config::Source::from(PathBuf::from(&s)), config::Source::File(PathBuf::from(&s)));
    for source in [secret::Source::File(PathBuf::from(&s)), secret::Source::Environment(s.clone())] {
        let secret = || Secret { source: source.clone(), labels: ListOrMap::default(), driver: None, driver_opts: IndexMap::new(), extensions: Extensions::new() };
        same(c, "Secret: From<Source>", Secret::from(source.clone()), secret());
        same(c, "Resource: From<Secret>", Resource::from(secret()), Resource::Compose(secret()));
    }
    same(c, "secret::Source: From<PathBuf>", secret::Source::from(PathBuf::from(&s)), secret::Source::File(PathBuf::from(&s)));
    // commands and health checks
    let list: Vec<String> = (0..r.range(0, 3)).map(|_| g::g_free(&mut r)).collect();
    same(c, "Command: From<String>", Command::from(s.clone()), Command::String(s.clone()));
    same(c, "Command: From<Vec>", Command::from(list.clone()), Command::List(list.clone()));
    same(c, "Test: From<String>", healthcheck::Test::from(s.clone()), healthcheck::Test::ShellCommand(s.clone()));
    same(c, "Test: From<Vec>", healthcheck::Test::from(list.clone()), healthcheck::Test::Command(list.clone()));
    let command = healthcheck::Command { test: r.bool().then(|| list.clone().into()), retries: r.bool().then(|| r.range(0, 9)), ..healthcheck::Command::default() };
    same(c, "Healthcheck: From<Command>", Healthcheck::from(command.clone()), Healthcheck::Command(command));
    // includes and env files
    let path = PathBuf::from(g::g_rel_path(&mut r));
    let include = || Include { path: ItemOrList::Item(path.clone()), project_directory: None, env_file: None };
    same(c, "Include: From<PathBuf>", Include::from(path.clone()), include());
    same(c, "ShortOrLong: From<Include>", ShortOrLong::<PathBuf, Include>::from(include()), ShortOrLong::Long(include()));
    same(c, "ShortOrLong: From<PathBuf>", ShortOrLong::<PathBuf, Include>::from(path.clone()), ShortOrLong::Short(path.clone()));
    same(c, "ShortOrLong<PathBuf>: From<String>", ShortOrLong::<PathBuf, Include>::from(s.clone()), ShortOrLong::Short(PathBuf::from(&s)));
    same(c, "EnvFile: From<PathBuf>", EnvFile::from(path.clone()), EnvFile::Single(path.clone()));
    same(c, "EnvFile: From<String>", EnvFile::from(s.clone()), EnvFile::Single(PathBuf::from(&s)));
    let cfg = |path: &Path| env_file::Config { path: path.to_owned(), required: true };
    same(c, "env_file::Config: From<PathBuf>", env_file::Config::from(path.clone()), cfg(&path));
    same(c, "env_file::Config: From<String>", env_file::Config::from(s.clone()), cfg(Path::new(&s)));
    let entries: Vec<ShortOrLong<PathBuf, env_file::Config>> = (0..r.range(0, 4))
        .map(|_| {
            let p = PathBuf::from(g::g_rel_path(&mut r));
            if r.bool() { ShortOrLong::Short(p) } else { ShortOrLong::Long(env_file::Config { path: p, required: r.bool() }) }
        })
        .collect();
    let collected: EnvFile = entries.iter().cloned().collect();
    same(c, "EnvFile: FromIterator", collected.clone().into_list().into_iter().collect::<Vec<_>>(), entries.clone());
    same(c, "EnvFile: FromIterator is a list", matches!(&collected, EnvFile::List(l) if *l == entries), true);
    let collected: EnvFile = entries.iter().map(|e| e.clone().into_long()).collect();
    same(c, "EnvFile: FromIterator<Config>", collected.into_list().into_iter().map(|e| (e.is_long(), e.into_long())).collect::<Vec<_>>(), entries.iter().map(|e| (true, e.clone().into_long())).collect());
    same(c, "EnvFile: From<List>", EnvFile::from(entries.clone()), EnvFile::List(entries));
    // identifiers inside other values
    let (x, y) = (id(&mut r), id(&mut r));
    let cs = || ConfigOrSecret { source: x.clone(), target: None, uid: None, gid: None, mode: None, extensions: Extensions::new() };
    same(c, "ConfigOrSecret: From<Identifier>", ConfigOrSecret::from(x.clone()), cs());
    same(c, "ShortOrLong: From<Identifier>", ShortOrLong::<Identifier, ConfigOrSecret>::from(x.clone()), ShortOrLong::Short(x.clone()));
    same(c, "ShortOrLong: From<ConfigOrSecret>", ShortOrLong::<Identifier, ConfigOrSecret>::from(cs()), ShortOrLong::Long(cs()));
    same(c, "Link: From<Identifier>", Link::from(x.clone()), Link { service: x.clone(), alias: None });
    for source in [VolumesFromSource::Service(x.clone()), VolumesFromSource::Container(x.clone())] {
        same(c, "VolumesFrom: From<VolumesFromSource>", VolumesFrom::from(source.clone()), VolumesFrom { source, read_only: false });
    }
    let set: IndexSet<Identifier> = [x.clone(), y.clone()].into_iter().collect();
    let names = ShortOrLong::Short(set.clone());
    same(c, "Networks: From<IndexSet>", ServiceNetworks::from(set), names.clone());
    same(c, "NetworkConfig: From<Networks>", NetworkConfig::from(names.clone()), NetworkConfig::Networks(names));
    for mode in [NetworkMode::None, NetworkMode::Host, NetworkMode::Service(x.clone()), NetworkMode::Container(y.clone()), NetworkMode::Other("bridge".into())] {
        same(c, "NetworkConfig: From<NetworkMode>", NetworkConfig::from(mode.clone()), NetworkConfig::NetworkMode(mode));
    }
    // one item or a list, short or long
    same(c, "ItemOrList: From<T>", ItemOrList::from(s.clone()), ItemOrList::Item(s.clone()));
    let strings: IndexSet<String> = list.iter().cloned().collect();
    same(c, "ItemOrList: From<IndexSet>", ItemOrList::from(strings.clone()), ItemOrList::List(strings.clone()));
    same(c, "IndexSet: From<ItemOrList>", IndexSet::from(ItemOrList::List(strings.clone())).into_iter().collect::<Vec<_>>(), strings.iter().cloned().collect());
    same(c, "IndexSet: From<ItemOrList>", IndexSet::from(ItemOrList::Item(s.clone())).into_iter().collect::<Vec<_>>(), vec![s.clone()]);
    same(c, "ItemOrList::as_item", (ItemOrList::Item(s.clone()).as_item().cloned(), ItemOrList::List(strings.clone()).as_item().cloned()), (Some(s.clone()), if strings.len() == 1 { strings.first().cloned() } else { None }));
    same(c, "ItemOrList::as_list", (ItemOrList::Item(s.clone()).as_list().is_none(), ItemOrList::List(strings.clone()).as_list().cloned()), (true, Some(strings)));
    let (sh, lo) = (ShortOrLong::<u32, String>::Short(n), ShortOrLong::<u32, String>::Long(s.clone()));
    same(c, "ShortOrLong queries", (sh.is_short(), sh.is_long(), sh.as_long().is_none()), (true, false, true));
    same(c, "ShortOrLong queries", (lo.is_short(), lo.is_long(), lo.as_long().cloned()), (false, true, Some(s)));
    same(c, "ShortOrLong: From<short>", ShortOrLong::<u32, String>::from(n), sh.clone());
    same(c, "ShortOrLong::default", ShortOrLong::<u32, String>::default(), ShortOrLong::Short(0));
    same(c, "ShortOrLong: Iterator", (ShortOrLong::<_, std::vec::IntoIter<String>>::Short(list.clone().into_iter()).collect::<Vec<_>>(), ShortOrLong::<std::vec::IntoIter<String>, _>::Long(list.clone().into_iter()).collect::<Vec<_>>()), (list.clone(), list));
    // devices
    same(c, "Permissions::all", Permissions::all(), Permissions { read: true, write: true, mknod: true });
    let p = Permissions { read: r.bool(), write: r.bool(), mknod: r.bool() };
    same(c, "Permissions::any", p.any(), p.read || p.write || p.mknod);
    let caps: Vec<Capability> = (0..r.range(0, 3)).map(|_| r.pick(&[Capability::Gpu, Capability::Tpu, Capability::Other("x".into())]).clone()).collect();
    let want: IndexSet<Capability> = caps.iter().cloned().collect();
    let device = GpuDevice { capabilities: want, driver: None, count: None, device_ids: IndexSet::new(), options: ListOrMap::default(), extensions: Extensions::new() };
    same(c, "resources::Device::new", GpuDevice::new(caps.iter().cloned()), device.clone());
    same(c, "resources::Device::new(&str)", GpuDevice::new(caps.iter().map(Capability::as_str)), device);
    // networks of a build
    same(c, "build::Network::into_option", (build::Network::Identifier(x.clone()).into_option(), build::Network::None.into_option()), (Some(x), None));
}

/// What the types' documentation gives as their defaults.
pub fn defaults(c: &mut Case) {
    c.seen(&"defaults");
    c.sample(|| "Default of every public type that has it".into());
    use compose_spec::service::{deploy, network_config, ports, Deploy, Develop, PullPolicy, Restart, Uts};
    same(c, "BindPropagation::default", BindPropagation::default(), BindPropagation::RPrivate);
    same(c, "Count::default", Count::default(), Count::All);
    same(c, "ports::Mode::default", ports::Mode::default(), ports::Mode::Ingress);
    same(c, "ports::Protocol::default", ports::Protocol::default(), ports::Protocol::Tcp);
    same(c, "deploy::Mode::default", deploy::Mode::default(), deploy::Mode::Replicated);
    same(c, "deploy::RestartCondition::default", deploy::RestartCondition::default(), deploy::RestartCondition::Any);
    same(c, "deploy::FailureAction::default", deploy::FailureAction::default(), deploy::FailureAction::Pause);
    same(c, "deploy::Order::default", deploy::Order::default(), deploy::Order::StopFirst);
    same(c, "Limit::default", Limit::<u64>::default(), Limit::Unlimited);
    same(c, "SshAuth::default", build::SshAuth::default(), build::SshAuth::Default);
    same(c, "Condition::default", compose_spec::service::Condition::default(), compose_spec::service::Condition::ServiceStarted);
    same(c, "Uts::default", Uts::default(), Uts::Host);
    same(c, "PullPolicy::default", PullPolicy::default(), PullPolicy::Missing);
    same(c, "Restart::default", Restart::default(), Restart::No);
    same(c, "Weight::default", Weight::default().into_inner().get(), 500);
    same(c, "ByteValue::default", ByteValue::default(), ByteValue::Bytes(0));
    same(c, "Context::default", Context::default(), Context::Path(".".into()));
    same(c, "Cpus::default", Cpus::default().into_inner(), 0.0);
    same(c, "CpuSet::default", CpuSet::default().0, BTreeSet::new());
    same(c, "Permissions::default", Permissions::default(), Permissions { read: false, write: false, mknod: false });
    same(c, "ListOrMap::default", ListOrMap::default().is_empty(), true);
    same(c, "Healthcheck::default", Healthcheck::default(), Healthcheck::Command(healthcheck::Command { test: None, interval: None, timeout: None, retries: None, start_period: None, start_interval: None, extensions: Extensions::new() }));
    same(c, "Dependency::default", compose_spec::service::Dependency::default(), compose_spec::service::Dependency { condition: compose_spec::service::Condition::ServiceStarted, restart: false, required: true });
    // a structure of defaults is what an empty mapping is read as
    fn empty<T: Default + Debug + PartialEq + serde::de::DeserializeOwned>(c: &mut Case, what: &str) {
        match serde_yaml::from_str::<T>("{}") {
            Ok(v) => same(c, what, T::default(), v),
            Err(e) => c.fail(&format!("built:{what}"), format!("{what}: an empty mapping is rejected: {e}")),
        }
    }
    empty::<Network>(c, "Network: {}");
    empty::<compose_spec::network::Ipam>(c, "Ipam: {}");
    empty::<compose_spec::network::IpamConfig>(c, "IpamConfig: {}");
    empty::<compose_spec::Volume>(c, "Volume: {}");
    empty::<compose_spec::Service>(c, "Service: {}");
    empty::<Build>(c, "Build: {}");
    empty::<BindOptions>(c, "BindOptions: {}");
    empty::<VolumeOptions>(c, "VolumeOptions: {}");
    empty::<TmpfsOptions>(c, "TmpfsOptions: {}");
    empty::<network_config::Network>(c, "service Network: {}");
    empty::<Develop>(c, "Develop: {}");
    empty::<Deploy>(c, "Deploy: {}");
    empty::<deploy::Placement>(c, "Placement: {}");
    empty::<deploy::Preference>(c, "Preference: {}");
    empty::<deploy::RestartPolicy>(c, "RestartPolicy: {}");
    empty::<deploy::UpdateOrRollbackConfig>(c, "UpdateRollbackConfig: {}");
    empty::<deploy::Resources>(c, "Resources: {}");
    empty::<deploy::resources::Limits>(c, "Limits: {}");
    empty::<deploy::resources::Reservations>(c, "Reservations: {}");
    empty::<compose_spec::service::BlkioConfig>(c, "BlkioConfig: {}");
}

/// A path of any bytes, as the system allows them.
fn raw_path(r: &mut Rng) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let mut b: Vec<u8> = match r.below(5) {
        0 => Vec::new(),
        1 => b".".to_vec(),
        2 => b"../".to_vec(),
        3 => b"./".to_vec(),
        _ => b"/".to_vec(),
    };
    for _ in 0..r.range(0, 6) {
        match r.below(10) {
            0 => b.push(0xff),
            1 => b.push(0x80 | r.u64() as u8),
            2 => b.extend([0xc3, 0x28]),
            3 => b.extend("\u{e9}\u{2028}".bytes()),
            4 => b.push(*r.pick(&[b':', b' ', b'\n', b'\\', b'=', 0, 0x7f])),
            5 | 6 => b.push(b'/'),
            7 => b.push(b'.'),
            _ => b.push(*r.pick(&[b'a', b'Z', b'0', b'-'])),
        }
    }
    std::ffi::OsString::from_vec(b).into()
}
fn raw_host(p: &Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let b = p.as_os_str().as_bytes();
    b.starts_with(b"/") || b == b"." || b == b".." || b.starts_with(b"./") || b.starts_with(b"../")
}
/// Paths of any bytes: what types that take a path make of it, and edits of it.
pub fn raw_paths(c: &mut Case) {
    use std::os::unix::ffi::OsStrExt;
    fn bytes(p: &Path) -> Vec<u8> {
        p.as_os_str().as_bytes().to_vec()
    }
    let mut r = c.rng.clone();
    let path = raw_path(&mut r);
    let raw = bytes(&path);
    c.seen(&raw);
    c.event(if path.to_str().is_some() { "paths of text" } else { "paths that are no text" });
    c.sample(|| format!("{path:?}"));
    macro_rules! held {
        ($T:ident, $name:literal, $ok:expr, $top:expr) => {{
            let ok = $ok;
            let made = [
                ("new(&Path)", $T::new(path.as_path()).ok()),
                ("new(PathBuf)", $T::new(path.clone()).ok()),
                ("TryFrom<PathBuf>", $T::try_from(path.clone()).ok()),
                ("TryFrom<&Path>", $T::try_from(path.as_path()).ok()),
                ("TryFrom<Box<Path>>", $T::try_from(Box::<Path>::from(path.as_path())).ok()),
                ("TryFrom<Cow<Path>>", $T::try_from(Cow::Borrowed(path.as_path())).ok()),
                ("TryFrom<Cow<Path>> (owned)", $T::try_from(Cow::<Path>::Owned(path.clone())).ok()),
            ];
            for (how, v) in &made {
                same(c, &format!("{}: {how}", $name), v.as_ref().map(|v| bytes(v.as_path())), ok.then(|| raw.clone()));
            }
            if let [_, (_, Some(v)), ..] = made {
                let mut v = v;
                for step in 0..r.range(1, 6) {
                    let before = v.as_path().to_owned();
                    let parts = |p: &Path| p.components().map(|c| c.as_os_str().to_owned()).collect::<Vec<_>>();
                    let mut log = format!("step {step}, {before:?}");
                    if r.bool() {
                        let piece = raw_path(&mut r);
                        let mut want = before.clone();
                        want.push(&piece);
                        match r.below(3) {
                            0 => v.push(&piece),
                            1 => v.push(piece.as_os_str()),
                            _ => v.push(piece.clone()),
                        }
                        log += &format!(".push({piece:?})");
                        c.check(bytes(v.as_path()) == bytes(&want), &format!("raw path:{}:push", $name), || format!("{log}: {v:?}, expected {want:?}"));
                    } else {
                        log += ".pop()";
                        let (did, mut want) = (v.pop(), parts(&before));
                        let top: fn(&Path) -> bool = $top;
                        c.check(did != top(&before), &format!("raw path:{}:pop result", $name), || format!("{log}: {did}"));
                        if did {
                            want.pop();
                        }
                        c.check(parts(v.as_path()) == want, &format!("raw path:{}:pop", $name), || format!("{log}: {v:?}, expected {want:?}"));
                    }
                    let now = v.as_path().to_owned();
                    let valid: fn(&Path) -> bool = if $name == "HostPath" { raw_host } else { |p| bytes(p).starts_with(b"/") };
                    c.check(valid(&now), &format!("raw path:{}:invariant", $name), || format!("{log}: {v:?}"));
                    let outs = [
                        ("into_inner", v.clone().into_inner()),
                        ("Into<PathBuf>", PathBuf::from(v.clone())),
                        ("Into<Box<Path>>", Box::<Path>::from(v.clone()).into_path_buf()),
                        ("AsRef<PathBuf>", AsRef::<PathBuf>::as_ref(&v).clone()),
                        ("AsRef<Path>", AsRef::<Path>::as_ref(&v).to_owned()),
                        ("Borrow<Path>", std::borrow::Borrow::<Path>::borrow(&v).to_owned()),
                        ("as_inner", v.as_inner().clone()),
                    ];
                    for (how, out) in outs {
                        c.check(bytes(&out) == bytes(&now), &format!("raw path:{}:{how}", $name), || format!("{log}: {v:?} gives {out:?}"));
                    }
                    // equal to a path exactly when the components are
                    let mut longer = now.clone();
                    longer.push("b");
                    let shorter = now.parent().unwrap_or(&before).to_owned();
                    for other in [&now, &before, &path, &longer, &shorter, &now.join("."), &PathBuf::from("/")] {
                        let eq = parts(other) == parts(&now);
                        c.check((v == *other.as_path()) == eq, &format!("raw path:{}:eq", $name), || format!("{log}: {v:?} == {other:?} is not {eq}"));
                        if let Ok(o) = $T::new(other.as_path()) {
                            c.check((v == o) == eq && (v.cmp(&o).is_eq()) == eq, &format!("raw path:{}:eq", $name), || format!("{log}: {v:?} == {o:?} is not {eq}"));
                        }
                    }
                    match (now.to_str(), serde_yaml::to_value(&v)) {
                        (Some(t), Ok(w)) => drop(c.check(w.as_str() == Some(t), &format!("raw path:{}:written", $name), || format!("{log}: {v:?} is written {w:?}"))),
                        (Some(t), Err(e)) => c.fail(format!("raw path:{}:not written", $name), format!("{log}: {t:?}: {e}")),
                        (None, w) => c.event(if w.is_ok() { "no text, but written" } else { "no text, refused by the writer" }),
                    }
                }
            }
        }};
    }
    held!(AbsolutePath, "AbsolutePath", raw.starts_with(b"/"), |p| p.components().count() == 1);
    held!(HostPath, "HostPath", raw_host(&path), |p| p.components().count() == 1);
    // the other types that take a path
    let host = raw_host(&path);
    for (w, v) in [
        ("PathBuf", Source::try_from(path.clone()).ok()),
        ("&Path", Source::try_from(path.as_path()).ok()),
        ("Box<Path>", Source::try_from(Box::<Path>::from(path.as_path())).ok()),
        ("Cow<Path>", Source::try_from(Cow::Borrowed(path.as_path())).ok()),
        ("Cow<Path> (owned)", Source::try_from(Cow::<Path>::Owned(path.clone())).ok()),
    ] {
        same(c, &format!("Source: TryFrom<{w}>"), v, host.then(|| Source::HostPath(HostPath::new(path.clone()).unwrap())));
    }
    if let Ok(h) = HostPath::new(path.clone()) {
        let target = AbsolutePath::new("/t").unwrap();
        let short = ShortVolume { container_path: target.clone(), options: Some(ShortOptions::new(Source::HostPath(h.clone()))) };
        let long = short.clone().into_long();
        let source = |m: &Mount| m.as_bind().map(|b| bytes(b.source.as_path()));
        same(c, "ShortVolume::into_long", source(&long), Some(raw.clone()));
        same(c, "Mount::into_short", long.into_short().ok(), Some(short.clone()));
        let _ = (short.to_string(), format!("{short:?}"), serde_yaml::to_value(&short).is_ok());
    }
    if let Ok(a) = AbsolutePath::new(path.clone()) {
        same(c, "HostPath: From<AbsolutePath>", bytes(HostPath::from(a.clone()).as_path()), raw.clone());
        same(c, "Source: From<AbsolutePath>", Source::from(a.clone()), Source::HostPath(HostPath::new(path.clone()).unwrap()));
        let short = ShortVolume { container_path: a.clone(), options: None };
        let long = short.clone().into_long();
        same(c, "ShortVolume::into_long", bytes(long.common().target.as_path()), raw.clone());
        same(c, "Mount::into_short", long.clone().into_short().ok(), Some(short.clone()));
        let _ = (short.to_string(), long.source_to_string(), serde_yaml::to_value(&long).is_ok());
    }
    let p = || path.clone();
    for context in [Context::from(p()), Context::from(path.as_path()), Context::from(Cow::Borrowed(path.as_path())), Context::from(Cow::<Path>::Owned(p()))] {
        same(c, "Context: From<a path>", context.as_path().map(|p| bytes(p)), Some(raw.clone()));
        let _ = (context.to_string(), serde_yaml::to_value(&context).is_ok());
    }
    same(c, "config::Source: From<PathBuf>", config::Source::from(p()), config::Source::File(p()));
    same(c, "secret::Source: From<PathBuf>", secret::Source::from(p()), secret::Source::File(p()));
    same(c, "EnvFile: From<PathBuf>", EnvFile::from(p()), EnvFile::Single(p()));
    same(c, "EnvFile::as_single", EnvFile::from(p()).as_single().map(|p| bytes(p)), Some(raw.clone()));
    same(c, "env_file::Config: From<PathBuf>", bytes(&env_file::Config::from(p()).path), raw.clone());
    let long: Vec<Vec<u8>> = [p(), p()].into_iter().collect::<EnvFile>().into_list().into_iter().map(|e| bytes(&e.into_long().path)).collect();
    same(c, "EnvFile: FromIterator", long, vec![raw.clone(), raw.clone()]);
    let include = Include::from(p());
    same(c, "Include: From<PathBuf>", include.path.as_item().map(|p| bytes(p)), Some(raw.clone()));
    same(c, "Include::as_short", compose_spec::AsShort::as_short(&include).map(|p| bytes(p)), Some(raw.clone()));
    let _ = (serde_yaml::to_value(&include).is_ok(), serde_yaml::to_value(EnvFile::from(p())).is_ok());
}
