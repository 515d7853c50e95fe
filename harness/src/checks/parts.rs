//! Parts, variants and queries of structured texts (C24) and path values under edits (C25).
use crate::checks::strings::texts;
use crate::mon::Case;
use crate::recog::{self, Rec};
use crate::rng::Rng;
use crate::strs::{self as g, tcs, DynTc};
use compose_spec::network::Driver;
use compose_spec::service::build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId};
use compose_spec::service::deploy::{self, resources::Capability, EndpointMode};
use compose_spec::service::device::{CgroupRule, Kind, MajorMinorNumber, Permissions};
use compose_spec::service::image::{Digest, Image, Name, Tag, TagOrDigest};
use compose_spec::service::network_config::NetworkMode;
use compose_spec::service::ports::{self, Protocol};
use compose_spec::service::volumes::{self, mount::BindPropagation, HostPath, SELinux, ShortOptions, ShortVolume, Source};
use compose_spec::service::{
    self as sv, develop::Action, AbsolutePath, Device, Expose, Hostname, IdOrName, Ipc, Link, MacAddress, User, VolumesFrom,
    VolumesFromSource,
};
use compose_spec::{AsShortIter, ExtensionKey, Identifier, ItemOrList, ListOrMap, Resource};
use indexmap::IndexSet;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::net::IpAddr;
use std::path::{Path, PathBuf};

/// What was observed on an accepted text: (what, library, reference) for everything compared.
#[derive(Default)]
struct Obs {
    compared: u64,
    bad: Vec<(&'static str, String)>,
}
impl Obs {
    fn eq<A: PartialEq<B> + Debug, B: Debug>(&mut self, what: &'static str, got: A, want: B) {
        self.compared += 1;
        if got != want {
            self.bad.push((what, format!("{what}: {got:?}, by the text {want:?}")));
        }
    }
    /// A value put together from the parts is the parsed one, in every observable way.
    fn same<T: PartialEq + Debug + Display>(&mut self, what: &'static str, parsed: &T, built: &T) {
        self.compared += 1;
        if parsed != built || format!("{parsed:?}") != format!("{built:?}") || parsed.to_string() != built.to_string() {
            self.bad.push((what, format!("{what}: parsed {parsed:?}, put together {built:?}")));
        }
    }
}
type Look = fn(&str, &mut Obs) -> bool;

fn id(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}
fn abs(s: &str) -> AbsolutePath {
    AbsolutePath::new(s).unwrap()
}

fn link(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Link>() else { return false };
    let (a, b) = match s.find(':') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    o.eq("link:service", v.service.as_str(), a);
    o.eq("link:alias", v.alias.as_deref(), b);
    o.same("link:built", &v, &Link { service: id(a), alias: b.map(str::to_owned) });
    if b.is_none() {
        o.same("link:from service", &v, &id(a).into());
    }
    o.eq("link:String", String::from(v), s);
    true
}
fn vf_source(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<VolumesFromSource>() else { return false };
    let want = match s.strip_prefix("container:") {
        Some(n) => VolumesFromSource::Container(id(n)),
        None => VolumesFromSource::Service(id(s)),
    };
    o.same("volumes_from source", &v, &want);
    o.eq("volumes_from source:String", String::from(v), s);
    true
}
fn volumes_from(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<VolumesFrom>() else { return false };
    let (rest, ro) = if let Some(x) = s.strip_suffix(":ro") {
        (x, true)
    } else if let Some(x) = s.strip_suffix(":rw") {
        (x, false)
    } else {
        (s, false)
    };
    o.eq("volumes_from:read_only", v.read_only, ro);
    let src = match rest.strip_prefix("container:") {
        Some(n) => VolumesFromSource::Container(id(n)),
        None => VolumesFromSource::Service(id(rest)),
    };
    o.same("volumes_from:source", &v.source, &src);
    if !ro {
        o.same("volumes_from:from source", &v, &VolumesFrom::from(src.clone()));
    }
    let built = VolumesFrom { source: src, read_only: ro };
    o.same("volumes_from:built", &v, &built);
    o.eq("volumes_from:String", String::from(v), format!("{rest}{}", if ro { ":ro" } else if rest == "container:ro" || rest == "container:rw" { ":rw" } else { "" }));
    true
}
fn perms(s: &str) -> Permissions {
    Permissions { read: s.contains('r'), write: s.contains('w'), mknod: s.contains('m') }
}
fn permissions(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Permissions>() else { return false };
    o.same("permissions", &v, &perms(s));
    o.eq("permissions:any", v.any(), !s.is_empty());
    o.eq("permissions:all", v == Permissions::all(), s.contains('r') && s.contains('w') && s.contains('m'));
    true
}
fn device(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Device>() else { return false };
    let p: Vec<&str> = s.splitn(3, ':').collect();
    o.eq("device:host path", v.host_path.to_str(), Some(p[0]));
    o.eq("device:container path", v.container_path.as_path().to_str(), Some(p[1]));
    o.same("device:permissions", &v.permissions, &perms(p.get(2).copied().unwrap_or("")));
    o.same("device:built", &v, &Device { host_path: p[0].into(), container_path: abs(p[1]), permissions: perms(p.get(2).copied().unwrap_or("")) });
    true
}
fn mm(s: &str) -> MajorMinorNumber {
    if s.is_empty() || s == "*" {
        MajorMinorNumber::All
    } else {
        MajorMinorNumber::Integer(s.parse().unwrap())
    }
}
fn major_minor(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<MajorMinorNumber>() else { return false };
    o.same("major or minor", &v, &mm(s));
    if let MajorMinorNumber::Integer(n) = mm(s) {
        o.eq("major or minor:equals number", v, n);
        o.eq("major or minor:equals another", v == n.wrapping_add(1), false);
        o.same("major or minor:from number", &v, &n.into());
    } else {
        o.eq("major or minor:all is no number", v == 0u16, false);
    }
    true
}
fn kind(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Kind>() else { return false };
    let want = match s {
        "a" => Kind::All,
        "b" => Kind::Block,
        _ => Kind::Char,
    };
    o.same("device kind", &v, &want);
    o.eq("device kind:as_char", v.as_char().to_string(), s);
    o.eq("device kind:char", char::from(v).to_string(), s);
    o.eq("device kind:from char", Kind::try_from(s.chars().next().unwrap()), Ok(want));
    true
}
fn cgroup_rule(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<CgroupRule>() else { return false };
    let w: Vec<&str> = s.split_whitespace().collect();
    let (a, b) = w[1].split_once(':').unwrap();
    o.eq("cgroup rule:kind", v.kind.as_char().to_string(), w[0]);
    o.same("cgroup rule:major", &v.major, &mm(a));
    o.same("cgroup rule:minor", &v.minor, &mm(b));
    let p = perms(w.get(2).copied().unwrap_or(""));
    o.same("cgroup rule:permissions", &v.permissions, &p);
    o.same("cgroup rule:built", &v, &CgroupRule { kind: w[0].parse().unwrap(), major: mm(a), minor: mm(b), permissions: p });
    true
}
fn ssh(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<SshAuth>() else { return false };
    let want = if s == "default" { None } else { s.split_once('=') };
    o.eq("ssh:id", v.id(), want.map(|w| w.0));
    o.eq("ssh:path", v.path().map(|p| p.to_str().unwrap()), want.map(|w| w.1));
    match want {
        None => {
            o.same("ssh:default", &v, &SshAuth::Default);
            o.same("ssh:default value", &v, &SshAuth::default());
            o.eq("ssh:as_id", v.as_id(), None::<&SshAuthId>);
        }
        Some((a, b)) => {
            let built = SshAuthId::new(a, b).unwrap();
            o.eq("ssh:as_id", v.as_id(), Some(&built));
            o.eq("ssh:id of id", (built.id(), built.path().to_str()), (a, Some(b)));
            o.eq("ssh:id parsed", s.parse::<SshAuthId>(), Ok(built.clone()));
            o.same("ssh:built", &v, &SshAuth::Id(built));
        }
    }
    true
}
fn cache(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Cache>() else { return false };
    let (ty, mut opts) = if s.contains(',') || s.starts_with("type=") {
        recog::cache_parts(s).unwrap()
    } else {
        ("registry".to_owned(), vec![("ref".to_owned(), s.to_owned())])
    };
    let reg = ty == "registry";
    let image = if reg {
        let at = opts.iter().position(|x| x.0 == "ref").unwrap();
        Some(opts.remove(at).1)
    } else {
        None
    };
    o.eq("cache:is_registry", v.cache_type.is_registry(), reg);
    o.eq("cache:is_other", v.cache_type.is_other(), !reg);
    o.eq("cache:registry image", v.cache_type.as_registry().map(Image::as_str), image.as_deref());
    o.eq("cache:other type", v.cache_type.as_other().map(CacheOption::as_str), (!reg).then_some(&*ty));
    let got: Vec<(String, String)> = v.options.iter().map(|(k, x)| (k.to_string(), x.to_string())).collect();
    o.eq("cache:options", &got, &opts);
    let co = |s: &str| CacheOption::new(s).unwrap();
    let cache_type = match &image {
        Some(i) => CacheType::Registry(i.parse().unwrap()),
        None => CacheType::Other(co(&ty)),
    };
    o.eq("cache:type text", v.cache_type.to_string(), match &image {
        Some(i) => format!("type=registry,ref={i}"),
        None => format!("type={ty}"),
    });
    let options = opts.iter().map(|(k, x)| (co(k), co(x))).collect();
    o.same("cache:built", &v, &Cache { cache_type: cache_type.clone(), options });
    if opts.is_empty() {
        o.same("cache:from type", &v, &cache_type.into());
        if let Some(i) = &image {
            let img: Image = i.parse().unwrap();
            o.same("cache:from_image", &v, &Cache::from_image(img.clone()));
            o.same("cache:from image", &v, &img.clone().into());
            o.eq("cache:type from image", &v.cache_type, &CacheType::from(img));
        }
    }
    let mut all = vec![("type".to_owned(), ty)];
    if let Some(i) = image {
        all.push(("ref".to_owned(), i));
    }
    all.extend(opts);
    let got: Vec<(String, String)> = v.into_options().into_iter().map(|(k, x)| (k.into(), x.into())).collect();
    o.eq("cache:into_options", got, all);
    true
}
fn context(s: &str, o: &mut Obs) -> bool {
    let v = Context::parse(s);
    for (r, w) in [
        ("context:&str", Context::from(s)),
        ("context:String", Context::from(s.to_owned())),
        ("context:Box", Context::from(Box::<str>::from(s))),
        ("context:Cow", Context::from(Cow::Borrowed(s))),
        ("context:parse", s.parse().unwrap()),
    ] {
        o.same(r, &w, &v);
    }
    o.same("context:path", &Context::from(PathBuf::from(s)), &Context::Path(s.into()));
    o.same("context:path", &Context::from(Path::new(s)), &Context::Path(s.into()));
    o.same("context:path", &Context::from(Cow::Borrowed(Path::new(s))), &Context::Path(s.into()));
    match s.parse::<url::Url>() {
        Err(_) => {
            o.same("context:built", &v, &Context::Path(s.into()));
            o.eq("context:as_path", v.as_path().and_then(|p| p.to_str()), Some(s));
            o.eq("context:as_url", v.as_url(), None::<&url::Url>);
            o.eq("context:git", (v.is_git_repo_url(), v.branch_or_tag(), v.subdirectory()), (false, None, None));
            o.eq("context:into_string", v.into_string(), Ok::<_, Context>(s.to_owned()));
        }
        Ok(u) => {
            o.same("context:built", &v, &Context::Url(u.clone()));
            o.same("context:from url", &v, &u.clone().into());
            o.eq("context:as_path", v.as_path(), None::<&PathBuf>);
            o.eq("context:as_url", v.as_url(), Some(&u));
            let http = ["http", "https"].contains(&u.scheme());
            let path = u.path();
            let low = path.to_ascii_lowercase();
            let last = low.rsplit('/').find(|x| !x.is_empty()).unwrap_or("");
            // whether a path that is only ".git", other letter cases or a trailing slash count is left open
            let git = if !http || !last.ends_with(".git") {
                Some(false)
            } else if path.ends_with(".git") && last != ".git" {
                Some(true)
            } else {
                None
            };
            let is = v.is_git_repo_url();
            if let Some(g) = git {
                o.eq("context:is_git_repo_url", is, g);
            }
            let (b, d) = match u.fragment() {
                Some(f) if is => match f.split_once(':') {
                    Some((b, d)) => (Some(b), Some(d)),
                    None => (Some(f), None),
                },
                _ => (None, None),
            };
            o.eq("context:branch_or_tag", v.branch_or_tag(), b);
            o.eq("context:subdirectory", v.subdirectory(), d);
            o.eq("context:into_string", v.into_string(), Ok::<_, Context>(u.as_str().to_owned()));
        }
    }
    true
}
fn id_or_name_of(s: &str) -> IdOrName {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
        if let Ok(n) = s.parse() {
            return IdOrName::Id(n);
        }
    }
    IdOrName::Name(sv::user::Name::new(s).unwrap())
}
fn id_or_name(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<IdOrName>() else { return false };
    let w = id_or_name_of(s);
    o.same("id or name:built", &v, &w);
    let (i, n) = match &w {
        IdOrName::Id(i) => (Some(*i), None),
        IdOrName::Name(n) => (None, Some(n.as_str())),
    };
    o.eq("id or name:queries", (v.is_id(), v.is_name()), (i.is_some(), n.is_some()));
    o.eq("id or name:as_id", v.as_id(), i);
    o.eq("id or name:as_name", v.as_name().map(sv::user::Name::as_str), n);
    match w {
        IdOrName::Id(i) => o.same("id or name:from id", &v, &i.into()),
        IdOrName::Name(n) => o.same("id or name:from name", &v, &n.into()),
    }
    true
}
fn user(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<User>() else { return false };
    let (a, b) = match s.split_once(':') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let (a, b) = (id_or_name_of(a), b.map(id_or_name_of));
    o.same("user:user", &v.user, &a);
    o.eq("user:group", v.group.as_ref().map(|g| format!("{g:?}")), b.as_ref().map(|g| format!("{g:?}")));
    o.same("user:built", &v, &User { user: a.clone(), group: b.clone() });
    let from: User = match (a.clone(), b.clone()) {
        (IdOrName::Id(a), None) => a.into(),
        (IdOrName::Name(a), None) => a.into(),
        (IdOrName::Id(a), Some(IdOrName::Id(b))) => (a, b).into(),
        (IdOrName::Id(a), Some(IdOrName::Name(b))) => (a, b).into(),
        (IdOrName::Name(a), Some(IdOrName::Id(b))) => (a, b).into(),
        (IdOrName::Name(a), Some(IdOrName::Name(b))) => (a, b).into(),
    };
    o.same("user:from parts", &v, &from);
    o.same("user:from pair", &v, &match b {
        Some(b) => (a, b).into(),
        None => a.into(),
    });
    true
}
fn mac(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<MacAddress>() else { return false };
    let b: Vec<u8> = s.split(':').map(|p| u8::from_str_radix(p, 16).unwrap()).collect();
    let b: [u8; 6] = b.try_into().unwrap();
    o.eq("mac:bytes", v.0, b);
    o.eq("mac:into bytes", <[u8; 6]>::from(v), b);
    o.eq("mac:as bytes", AsRef::<[u8]>::as_ref(&v), &b[..]);
    o.same("mac:built", &v, &b.into());
    true
}
fn ipc(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Ipc>() else { return false };
    let service = s.strip_prefix("service:");
    let w = match (s, service) {
        ("shareable", _) => Ipc::Shareable,
        (_, Some(n)) => Ipc::Service(id(n)),
        _ => Ipc::Other(s.to_owned()),
    };
    o.same("ipc:built", &v, &w);
    let other = (s != "shareable" && service.is_none()).then_some(s);
    o.eq("ipc:queries", (v.is_shareable(), v.is_service(), v.is_other()), (s == "shareable", service.is_some(), other.is_some()));
    o.eq("ipc:as_service", v.as_service().map(Identifier::as_str), service);
    o.eq("ipc:as_other", v.as_other().map(String::as_str), other);
    o.eq("ipc:String", String::from(v.clone()), s);
    o.eq("ipc:Cow", Cow::from(v), s);
    true
}
fn network_mode(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<NetworkMode>() else { return false };
    let service = s.strip_prefix("service:");
    let container = s.strip_prefix("container:");
    let w = match (s, service, container) {
        ("none", ..) => NetworkMode::None,
        ("host", ..) => NetworkMode::Host,
        (_, Some(n), _) => NetworkMode::Service(id(n)),
        (_, _, Some(n)) => NetworkMode::Container(id(n)),
        _ => NetworkMode::Other(s.to_owned()),
    };
    o.same("network mode:built", &v, &w);
    let other = (s != "none" && s != "host" && service.is_none() && container.is_none()).then_some(s);
    o.eq(
        "network mode:queries",
        [v.is_none(), v.is_host(), v.is_service(), v.is_container(), v.is_other()],
        [s == "none", s == "host", service.is_some(), container.is_some(), other.is_some()],
    );
    o.eq("network mode:as_service", v.as_service().map(Identifier::as_str), service);
    o.eq("network mode:as_container", v.as_container().map(Identifier::as_str), container);
    o.eq("network mode:as_other", v.as_other().map(String::as_str), other);
    o.eq("network mode:String", String::from(v.clone()), s);
    o.eq("network mode:Cow", Cow::from(v), s);
    true
}
fn build_network(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<BuildNetwork>() else { return false };
    let w = if s == "none" { BuildNetwork::None } else { BuildNetwork::Identifier(id(s)) };
    o.same("build network:built", &v, &w);
    o.eq("build network:is_none", v.is_none(), s == "none");
    o.eq("build network:into_option", v.into_option().map(String::from), (s != "none").then(|| s.to_owned()));
    true
}
macro_rules! open_choice {
    ($f:ident, $T:ident, $name:literal, $a:literal => $A:ident, $b:literal => $B:ident, |$v:ident| $q:expr) => {
        fn $f(s: &str, o: &mut Obs) -> bool {
            let $v = $T::parse(s);
            let w = match s {
                $a => $T::$A,
                $b => $T::$B,
                _ => $T::Other(s.to_owned()),
            };
            o.same(concat!($name, ":built"), &$v, &w);
            o.same(concat!($name, ":owned"), &$T::parse(s.to_owned()), &w);
            let q: Option<(bool, bool)> = $q;
            if let Some(q) = q {
                o.eq(concat!($name, ":queries"), q, (s == $a, s == $b));
            }
            o.eq(concat!($name, ":as_str"), $v.as_str(), s);
            o.eq(concat!($name, ":Cow"), Cow::from($v.clone()), s);
            o.eq(concat!($name, ":String"), String::from($v), s);
            true
        }
    };
}
open_choice!(protocol, Protocol, "protocol", "tcp" => Tcp, "udp" => Udp, |v| Some((v.is_tcp(), v.is_udp())));
open_choice!(endpoint_mode, EndpointMode, "endpoint mode", "vip" => VIp, "dnsrr" => DnsRR, |v| Some((v.is_vip(), v.is_dnsrr())));
open_choice!(capability, Capability, "capability", "gpu" => Gpu, "tpu" => Tpu, |v| Some((v.is_gpu(), v.is_tpu())));
open_choice!(driver, Driver, "driver", "host" => Host, "none" => None, |v| None);

fn source(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = Source::parse(s) else { return false };
    let w = if s.starts_with(['.', '/']) {
        let h = HostPath::new(s).unwrap();
        o.same("source:from host path", &v, &h.clone().into());
        for (n, p) in [
            ("source:from PathBuf", Source::try_from(PathBuf::from(s))),
            ("source:from Path", Source::try_from(Path::new(s))),
            ("source:from Box<Path>", Source::try_from(Box::<Path>::from(Path::new(s)))),
            ("source:from Cow<Path>", Source::try_from(Cow::Borrowed(Path::new(s)))),
        ] {
            o.eq(n, p.ok().as_ref(), Some(&v));
        }
        if s.starts_with('/') {
            o.same("source:from absolute path", &v, &abs(s).into());
        }
        Source::HostPath(h)
    } else {
        o.same("source:from name", &v, &id(s).into());
        Source::Volume(id(s))
    };
    o.same("source:built", &v, &w);
    true
}
fn short_volume(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<ShortVolume>() else { return false };
    let p: Vec<&str> = s.splitn(3, ':').collect();
    if p.len() == 1 {
        o.same("volume:new", &v, &ShortVolume::new(abs(s)));
        o.same("volume:from path", &v, &abs(s).into());
        return true;
    }
    let src: Source = p[0].parse().unwrap();
    let set: Vec<&str> = p.get(2).map(|x| x.split(',').collect()).unwrap_or_default();
    let opts = ShortOptions {
        source: src.clone(),
        read_only: set.contains(&"ro"),
        selinux: set.iter().find_map(|x| match *x {
            "z" => Some(SELinux::Shared),
            "Z" => Some(SELinux::Private),
            _ => None,
        }),
    };
    o.eq("volume:options", v.options.as_ref(), Some(&opts));
    o.same("volume:built", &v, &ShortVolume { container_path: abs(p[1]), options: Some(opts.clone()) });
    if !opts.read_only && opts.selinux.is_none() {
        o.eq("volume:options new", v.options.as_ref(), Some(&ShortOptions::new(src.clone())));
        o.eq("volume:options from source", v.options.as_ref(), Some(&src.into()));
    }
    true
}
fn expose(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Expose>() else { return false };
    let (r, p) = match s.split_once('/') {
        Some((r, p)) => (r, Some(p)),
        None => (s, None),
    };
    let (_, a, b) = recog::range_vals(r);
    o.eq("expose:range", (v.range.start(), v.range.end()), (a, (b != a).then_some(b)));
    o.eq("expose:protocol", v.protocol.as_ref().map(Protocol::as_str), p);
    let range = ports::Range::new(a, Some(b)).unwrap();
    o.same("expose:built", &v, &Expose { range, protocol: p.map(Protocol::parse) });
    if p.is_none() {
        o.same("expose:from range", &v, &range.into());
        if a == b {
            o.same("expose:from number", &v, &a.into());
        }
    }
    true
}
fn image(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<Image>() else { return false };
    let (n, t, d) = recog::image_split(s);
    o.eq("image:name", (v.name(), v.tag(), v.digest()), (n, t, d));
    let td = match (t, d) {
        (Some(t), _) => Some(TagOrDigest::Tag(Tag::new(t).unwrap())),
        (_, Some(d)) => Some(TagOrDigest::Digest(Digest::new(d).unwrap())),
        _ => None,
    };
    o.eq("image:tag or digest", v.as_tag_or_digest(), td);
    o.eq("image:as_parts", v.as_parts(), (Name::new(n).unwrap(), td));
    o.eq("image:separator", td.map(|x| x.separator()), t.map(|_| ':').or(d.map(|_| '@')));
    o.eq("image:into_tag", v.as_tag_or_digest().and_then(TagOrDigest::into_tag).map(Tag::into_inner), t);
    o.eq("image:into_digest", v.as_tag_or_digest().and_then(TagOrDigest::into_digest).map(Digest::into_inner), d);
    o.eq("image:part text", td.as_ref().map(AsRef::as_ref), t.or(d));
    o.same("image:from_parts", &v, &Image::from_parts(Name::new(n).unwrap(), td));
    if td.is_none() {
        o.same("image:from name", &v, &Name::new(n).unwrap().into());
    }
    o.eq("image:as cache option", CacheOption::from(v.clone()).as_str(), s);
    o.eq("image:into_inner", v.into_inner(), s);
    true
}
fn extension_key(s: &str, o: &mut Obs) -> bool {
    let Ok(v) = s.parse::<ExtensionKey>() else { return false };
    o.eq("extension key:strip_prefix", v.strip_prefix(), &s[2..]);
    true
}
const LOOKS: &[(&str, Look)] = &[
    ("Link", link),
    ("VolumesFromSource", vf_source),
    ("VolumesFrom", volumes_from),
    ("device Permissions", permissions),
    ("Device", device),
    ("MajorMinorNumber", major_minor),
    ("device Kind", kind),
    ("CgroupRule", cgroup_rule),
    ("SshAuth", ssh),
    ("Cache", cache),
    ("build Context", context),
    ("IdOrName", id_or_name),
    ("User", user),
    ("MacAddress", mac),
    ("Ipc", ipc),
    ("NetworkMode", network_mode),
    ("build Network", build_network),
    ("ports Protocol", protocol),
    ("EndpointMode", endpoint_mode),
    ("deploy Capability", capability),
    ("network Driver", driver),
    ("volumes Source", source),
    ("ShortVolume", short_volume),
    ("Expose", expose),
    ("Image", image),
    ("ExtensionKey", extension_key),
];
fn type_named(n: &str) -> &'static dyn DynTc {
    &**tcs().iter().find(|t| t.name() == n).expect("textual type")
}
fn look_one(c: &mut Case, name: &'static str, t: &dyn DynTc, f: Look, s: &str) {
    if t.skip(s) || t.recog(s) != Rec::A {
        return;
    }
    let Some((accepted, o)) = c.guard(name, s, || {
        let mut o = Obs::default();
        (f(s, &mut o), o)
    }) else {
        return;
    };
    if !accepted {
        c.event("rejected");
        return;
    }
    c.event("accepted texts");
    c.event_n("parts compared", o.compared);
    c.seen(&(name, s));
    for (what, d) in o.bad {
        c.fail(format!("parts:{what}"), format!("{name} {s:?}: {d}"));
    }
}
pub fn looks() -> u64 {
    LOOKS.len() as u64
}
pub fn text_parts(c: &mut Case) {
    let (name, f) = LOOKS[c.index as usize % LOOKS.len()];
    let t = type_named(name);
    let mut r = c.rng.clone();
    let v = texts(&mut r, t, 40);
    c.sample(|| format!("{name}: {:?}", &v[..4]));
    for s in &v {
        look_one(c, name, t, f, s);
    }
}
/// Every word, with every prefix a type knows, for every type that tells words apart.
pub fn word_parts(c: &mut Case) {
    let (name, f) = LOOKS[c.index as usize % LOOKS.len()];
    let t = type_named(name);
    let words = [
        "", "none", "host", "None", "HOST", "service", "container", "shareable", "shareables", "default", "type", "type=", "registry",
        "tcp", "udp", "TCP", "vip", "dnsrr", "gpu", "tpu", "bridge", "private", "null", "true", "1", "0", "007", "4294967295",
        "4294967296", "a", "a-b", "a.b", "r", "rw", "ro", "z", "rwm", "x-", "x-a", "x-x-a", "*", ".", "..", "/", "./a", "../a", "/a",
        "services", "containers", "service.a", "host:", "none:",
    ];
    let pre = ["", "service:", "container:", "type=", "type=registry,ref=", "x-", "service:service:", "container:container:", "/a:", "a:", "1:"];
    let suf = ["", ":ro", ":rw", ":rw:ro", ":ro:rw", ":a", "/tcp", ",a=b", ":/c", ":/c:ro", "=a", ":1"];
    for w in words {
        for p in pre {
            for x in suf {
                look_one(c, name, t, f, &format!("{p}{w}{x}"));
            }
        }
    }
}

/// Every documented choice and the text that names it.
fn choice<T>(c: &mut Case, what: &str, v: T, text: &str, out: &str, shown: Option<String>)
where
    T: PartialEq + Debug + Serialize + DeserializeOwned,
{
    c.event("choices");
    c.seen(&(what, text));
    let doc = serde_yaml::Value::from(text);
    let read = [
        serde_yaml::from_value::<T>(doc.clone()).ok(),
        serde_json::from_value::<T>(text.into()).ok(),
        serde_json::from_str::<T>(&serde_json::to_string(text).unwrap()).ok(),
        serde_yaml::from_str::<T>(&serde_yaml::to_string(&doc).unwrap()).ok(),
    ];
    for x in read {
        c.check(x.as_ref() == Some(&v), &format!("choice:{what}"), || format!("{what} {text:?} read as {x:?}, documented as {v:?}"));
    }
    let w = serde_yaml::to_value(&v).ok();
    c.check(w == Some(out.into()), &format!("choice:{what}"), || format!("{what} {v:?} written as {w:?}, documented as {out:?}"));
    if let Some(s) = shown {
        c.check(s == out, &format!("choice:{what}"), || format!("{what} {v:?} printed as {s:?}, documented as {out:?}"));
    }
    for near in [text.to_uppercase(), text.replace('-', "_"), text.replace('_', "-"), format!("{text} "), format!(" {text}"), format!("{text}s"), text[..text.len() - 1].to_owned(), String::new()] {
        if near != text && text.len() > 1 {
            let x = serde_yaml::from_value::<T>(near.clone().into()).ok();
            let ok = x.is_none() || (text, &*near) == ("if-not-present", "if_not_present");
            c.check(ok, &format!("choice:{what}"), || format!("{what} {near:?} read as {x:?}"));
        }
    }
}
macro_rules! choices {
    ($c:ident; $($T:ty { $($v:ident = $s:literal),* $(,)? })*) => {$($(
        choice($c, stringify!($T), <$T>::$v, $s, $s, Some(format!("{}", <$T>::$v)));
        choice($c, stringify!($T), <$T>::$v, $s, $s, Some(format!("{:#}", <$T>::$v)));
        choice($c, stringify!($T), <$T>::$v, $s, $s, Some(<$T>::$v.as_str().to_owned()));
        choice($c, stringify!($T), <$T>::$v, $s, $s, Some(AsRef::<str>::as_ref(&<$T>::$v).to_owned()));
    )*)*};
}
pub fn closed_choices(c: &mut Case) {
    c.sample(|| "every choice of every closed set".to_owned());
    choices! {c;
        sv::Cgroup { Host = "host", Private = "private" }
        sv::Condition { ServiceStarted = "service_started", ServiceHealthy = "service_healthy", ServiceCompletedSuccessfully = "service_completed_successfully" }
        sv::PullPolicy { Always = "always", Never = "never", Missing = "missing", Build = "build" }
        sv::Restart { No = "no", Always = "always", OnFailure = "on-failure", UnlessStopped = "unless-stopped" }
        sv::Uts { Host = "host" }
        Action { Rebuild = "rebuild", Sync = "sync", SyncAndRestart = "sync+restart" }
        deploy::Mode { Global = "global", Replicated = "replicated" }
        deploy::RestartCondition { None = "none", OnFailure = "on-failure", Any = "any" }
        deploy::FailureAction { Continue = "continue", Pause = "pause" }
        deploy::Order { StopFirst = "stop-first", StartFirst = "start-first" }
        BindPropagation {
            Private = "private", Shared = "shared", Slave = "slave", Unbindable = "unbindable",
            RPrivate = "rprivate", RShared = "rshared", RSlave = "rslave", RUnbindable = "runbindable",
        }
        ports::Mode { Host = "host", Ingress = "ingress" }
        SELinux { Shared = "z", Private = "Z" }
    }
    choice(c, "PullPolicy alias", sv::PullPolicy::Missing, "if_not_present", "missing", None);
    c.check(sv::Condition::default() == sv::Condition::ServiceStarted, "choice:default", || "Condition".into());
    c.check(sv::PullPolicy::default() == sv::PullPolicy::Missing, "choice:default", || "PullPolicy".into());
    c.check(sv::Restart::default() == sv::Restart::No, "choice:default", || "Restart".into());
    c.check(deploy::Mode::default() == deploy::Mode::Replicated, "choice:default", || "deploy Mode".into());
    c.check(deploy::RestartCondition::default() == deploy::RestartCondition::Any, "choice:default", || "RestartCondition".into());
    c.check(deploy::FailureAction::default() == deploy::FailureAction::Pause, "choice:default", || "FailureAction".into());
    c.check(deploy::Order::default() == deploy::Order::StopFirst, "choice:default", || "Order".into());
    c.check(BindPropagation::default() == BindPropagation::RPrivate, "choice:default", || "BindPropagation".into());
    c.check(ports::Mode::default() == ports::Mode::Ingress, "choice:default", || "ports Mode".into());
    c.check(Protocol::default() == Protocol::Tcp, "choice:default", || "Protocol".into());
}

/// External and own resources: what the document says is what the queries answer.
pub fn resources(c: &mut Case) {
    let mut r = c.rng.clone();
    let ext = r.bool();
    let kind = r.below(4);
    // own configs and secrets have no name option
    let name = (r.bool() && (ext || kind < 2)).then(|| g::g_free(&mut r));
    let mut m = serde_yaml::Mapping::new();
    if ext {
        m.insert("external".into(), true.into());
    } else if r.bool() {
        m.insert("external".into(), false.into());
    }
    if let Some(n) = &name {
        let at = r.bool();
        if at {
            m.insert("name".into(), n.clone().into());
        } else {
            let mut k = serde_yaml::Mapping::new();
            k.insert("name".into(), n.clone().into());
            k.extend(m);
            m = k;
        }
    }
    if kind >= 2 && !ext {
        m.insert("file".into(), "./f".into());
    }
    let v = serde_yaml::Value::Mapping(m);
    c.seen(&format!("{kind}{v:?}"));
    c.sample(|| format!("{v:?}"));
    fn one<T: DeserializeOwned + PartialEq + Debug + Serialize>(
        c: &mut Case,
        v: &serde_yaml::Value,
        ext: bool,
        name: Option<&str>,
        of: fn(&Resource<T>) -> Option<&String>,
        own: fn(&T) -> Option<&String>,
    ) {
        let x: Resource<T> = match serde_yaml::from_value(v.clone()) {
            Ok(x) => x,
            Err(e) => return c.fail("resource:rejected", format!("{v:?}: {e}")),
        };
        c.event(if ext { "external" } else { "own" });
        c.check((x.is_external(), x.is_compose(), x.as_compose().is_some()) == (ext, !ext, !ext), "resource:queries", || format!("{v:?}: {x:?}"));
        c.check(of(&x).map(String::as_str) == name, "resource:name", || format!("{v:?}: {:?}", of(&x)));
        if let Some(t) = x.as_compose() {
            c.check(own(t).map(String::as_str) == name, "resource:own name", || format!("{v:?}: {:?}", own(t)));
        } else {
            let e = Resource::<T>::external(name.map(str::to_owned));
            c.check(e == x && of(&e).map(String::as_str) == name, "resource:external", || format!("{v:?}: {e:?}"));
        }
    }
    let n = name.as_deref();
    match kind {
        0 => one::<compose_spec::Network>(c, &v, ext, n, Resource::<compose_spec::Network>::name, |t| t.name.as_ref()),
        1 => one::<compose_spec::Volume>(c, &v, ext, n, Resource::<compose_spec::Volume>::name, |t| t.name.as_ref()),
        2 => one::<compose_spec::Config>(c, &v, ext, n, res_name, |_| None),
        _ => one::<compose_spec::Secret>(c, &v, ext, n, res_name, |_| None),
    }
}
fn res_name<T>(x: &Resource<T>) -> Option<&String> {
    match x {
        Resource::External { name } => name.as_ref(),
        Resource::Compose(_) => None,
    }
}

/// `extra_hosts` entries: host, separator and address, as a list or a map.
pub fn extra_hosts(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut want: Vec<(String, IpAddr)> = vec![];
    let mut list = vec![];
    let mut map = serde_yaml::Mapping::new();
    for _ in 0..r.range(1, 4) {
        let h = g::g_hostname(&mut r);
        let a: IpAddr = if r.bool() { g::g_ipv4(&mut r) } else { g::g_ipv6(&mut r) }.parse().unwrap();
        if want.iter().any(|x| x.0 == h) {
            continue;
        }
        let sep = if r.bool() { '=' } else { ':' };
        let txt = match a {
            IpAddr::V6(x) if r.bool() => format!("{h}{sep}[{x}]"),
            x => format!("{h}{sep}{x}"),
        };
        list.push(serde_yaml::Value::from(txt.clone()));
        let at = txt.find(sep).unwrap();
        map.insert(h.clone().into(), txt[at + 1..].into());
        want.push((h, a));
    }
    let build = r.bool();
    for v in [serde_yaml::Value::Sequence(list), serde_yaml::Value::Mapping(map)] {
        c.seen(&format!("{build}{v:?}"));
        c.sample(|| format!("{v:?}"));
        let mut m = serde_yaml::Mapping::new();
        m.insert("extra_hosts".into(), v.clone());
        let m = serde_yaml::Value::Mapping(m);
        let got = if build {
            serde_yaml::from_value::<sv::Build>(m).map(|b| b.extra_hosts)
        } else {
            serde_yaml::from_value::<sv::Service>(m).map(|s| s.extra_hosts)
        };
        match got {
            Ok(h) => {
                c.event("extra hosts");
                let got: Vec<(String, IpAddr)> = h.iter().map(|(k, a)| (k.to_string(), *a)).collect();
                c.check(got == want, "extra_hosts:entries", || format!("{v:?}: {got:?}"));
                for (k, a) in &want {
                    c.check(h.get(&Hostname::new(k.as_str()).unwrap()) == Some(a), "extra_hosts:lookup", || format!("{v:?}: {k}"));
                }
            }
            Err(e) => c.fail("extra_hosts:rejected", format!("{v:?}: {e}")),
        }
    }
}

// ---- C25 -----------------------------------------------------------------------------------
/// A path as its text, with the parent and join rules written on the text.
#[derive(Clone, Debug)]
struct Model(String);
impl Model {
    fn push(&mut self, p: &str) {
        if p.starts_with('/') {
            self.0 = p.to_owned();
        } else {
            if !self.0.is_empty() && !self.0.ends_with('/') {
                self.0.push('/');
            }
            self.0.push_str(p);
        }
    }
    /// The components: a root or leading `.` as such, then everything but `.` and empty names.
    fn parts(&self) -> Vec<&str> {
        let mut v = vec![];
        if self.0.starts_with('/') {
            v.push("/");
        }
        for (i, x) in self.0.split('/').enumerate() {
            if !x.is_empty() && (x != "." || i == 0) {
                v.push(x);
            }
        }
        v
    }
}
fn comps(p: &Path) -> Vec<&str> {
    p.components().map(|c| c.as_os_str().to_str().unwrap()).collect()
}
/// The two path types behind one interface.
trait Held: Sized + Clone + PartialEq + Eq + Ord + std::hash::Hash + Debug + Serialize + DeserializeOwned + std::borrow::Borrow<Path> + AsRef<Path> + AsRef<PathBuf> {
    const NAME: &'static str;
    fn make(s: &str) -> Vec<(&'static str, Option<Self>)>;
    fn valid(s: &str) -> bool;
    fn push_(&mut self, s: &str, how: u64);
    fn pop_(&mut self) -> bool;
    fn path(&self) -> &Path;
    fn inner(&self) -> &PathBuf;
    fn outs(self) -> Vec<(&'static str, PathBuf)>;
    fn eq_path(&self, p: &Path) -> bool;
    /// Whether the path is at its top: nothing may be removed.
    fn top(m: &Model) -> bool;
}
macro_rules! held {
    ($T:ident, $name:literal, $valid:expr, $top:expr) => {
        impl Held for $T {
            const NAME: &'static str = $name;
            fn make(s: &str) -> Vec<(&'static str, Option<Self>)> {
                vec![
                    ("new(&str)", $T::new(s).ok()),
                    ("new(String)", $T::new(s.to_owned()).ok()),
                    ("new(&Path)", $T::new(Path::new(s)).ok()),
                    ("new(PathBuf)", $T::new(PathBuf::from(s)).ok()),
                    ("TryFrom<PathBuf>", PathBuf::from(s).try_into().ok()),
                    ("TryFrom<&Path>", Path::new(s).try_into().ok()),
                    ("TryFrom<Box<Path>>", Box::<Path>::from(Path::new(s)).try_into().ok()),
                    ("TryFrom<Cow<Path>>", Cow::<Path>::Owned(PathBuf::from(s)).try_into().ok()),
                    ("TryFrom<&str>", s.try_into().ok()),
                    ("TryFrom<String>", s.to_owned().try_into().ok()),
                    ("parse", s.parse().ok()),
                    ("deserialize", serde_yaml::from_value(s.into()).ok()),
                ]
            }
            fn valid(s: &str) -> bool {
                $valid(s)
            }
            fn push_(&mut self, s: &str, how: u64) {
                match how {
                    0 => self.push(s),
                    1 => self.push(PathBuf::from(s)),
                    _ => self.push(Path::new(s)),
                }
            }
            fn pop_(&mut self) -> bool {
                self.pop()
            }
            fn path(&self) -> &Path {
                self.as_path()
            }
            fn inner(&self) -> &PathBuf {
                self.as_inner()
            }
            fn outs(self) -> Vec<(&'static str, PathBuf)> {
                vec![
                    ("into_inner", self.clone().into_inner()),
                    ("Into<PathBuf>", self.clone().into()),
                    ("Into<Box<Path>>", Box::<Path>::from(self.clone()).into()),
                    ("AsRef<PathBuf>", AsRef::<PathBuf>::as_ref(&self).clone()),
                    ("AsRef<Path>", AsRef::<Path>::as_ref(&self).to_owned()),
                    ("Borrow<Path>", std::borrow::Borrow::<Path>::borrow(&self).to_owned()),
                ]
            }
            fn eq_path(&self, p: &Path) -> bool {
                self == p
            }
            fn top(m: &Model) -> bool {
                $top(m)
            }
        }
    };
}
held!(AbsolutePath, "AbsolutePath", |s: &str| s.starts_with('/'), |m: &Model| m.parts().len() == 1);
held!(
    HostPath,
    "HostPath",
    |s: &str| s.starts_with('/') || s == "." || s == ".." || s.starts_with("./") || s.starts_with("../"),
    |m: &Model| m.parts().len() == 1
);
fn piece(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => ".".to_owned(),
        2 => "..".to_owned(),
        3 => g::g_abs_path(r),
        4 => "/".to_owned(),
        5 => g::g_rel_path(r),
        6 => r.string_of("a/.", 1, 6),
        7 => r.string_of("a/.", 1, 3) + "/",
        _ => r.string_of("abc.", 1, 4),
    }
}
fn paths<T: Held>(c: &mut Case) {
    let mut r = c.rng.clone();
    let start = match r.below(4) {
        0 => r.string_of("a/.", 0, 5),
        1 => g::g_rel_path(&mut r),
        _ => {
            if T::NAME == "HostPath" {
                g::g_host_path(&mut r)
            } else {
                g::g_abs_path(&mut r)
            }
        }
    };
    let n = T::NAME;
    let ok = T::valid(&start);
    let made = T::make(&start);
    for (route, x) in &made {
        c.check(x.is_some() == ok, &format!("path:{n}:accepts"), || format!("{n} {start:?} ({route}): {x:?}"));
        if let Some(x) = x {
            c.check(x.path().to_str() == Some(&start), &format!("path:{n}:text"), || format!("{n} {start:?} ({route}): {x:?}"));
        }
    }
    if !ok {
        c.event("rejected starts");
        return;
    }
    let Some(mut x) = made.into_iter().find_map(|m| m.1) else { return };
    let mut m = Model(start.clone());
    let mut log = format!("{n}({start:?})");
    for _ in 0..r.range(1, 12) {
        let before = x.clone();
        if r.chance(3, 5) {
            let p = piece(&mut r);
            let how = r.range(0, 2);
            log = format!("{log}.push({p:?})");
            x.push_(&p, how);
            m.push(&p);
            c.event("push");
            c.check(x.path().to_str() == Some(&m.0), &format!("path:{n}:push text"), || format!("{log}: {x:?}, expected {:?}", m.0));
        } else {
            log += ".pop()";
            let top = T::top(&m);
            let did = x.pop_();
            c.event(if did { "pop" } else { "refused pop" });
            c.check(did != top, &format!("path:{n}:pop result"), || format!("{log}: {did}, before {before:?}"));
            if did {
                let mut w = m.parts();
                w.pop();
                c.check(comps(x.path()) == w, &format!("path:{n}:pop"), || format!("{log}: {x:?}, expected components {w:?}"));
            } else {
                c.check(x.path().as_os_str() == before.path().as_os_str(), &format!("path:{n}:refused pop"), || format!("{log}: {x:?} was {before:?}"));
            }
            m = Model(x.path().to_str().unwrap().to_owned());
        }
        // the value is one its type accepts, equal to what its own text gives, by every route
        let t = x.path().to_str().unwrap().to_owned();
        c.event("states");
        c.check(T::valid(&t), &format!("path:{n}:invariant"), || format!("{log}: {t:?} is no valid {n}"));
        for (route, y) in T::make(&t) {
            c.check(y.as_ref() == Some(&x), &format!("path:{n}:reparse"), || format!("{log}: {t:?} ({route}): {y:?}"));
        }
        c.check(comps(x.path()) == m.parts(), &format!("path:{n}:components"), || format!("{log}: {x:?}, expected {:?}", m.parts()));
        for (route, p) in x.clone().outs() {
            c.check(p.to_str() == Some(&t), &format!("path:{n}:out"), || format!("{log}: {route} gives {p:?}"));
        }
        c.check(x.inner().to_str() == Some(&t) && x.eq_path(Path::new(&t)), &format!("path:{n}:out"), || format!("{log}: {x:?}"));
        for other in [before.path().to_owned(), Path::new(&t).join("b"), x.path().parent().unwrap_or(Path::new("")).to_owned()] {
            let eq = comps(&other) == comps(x.path());
            c.check(x.eq_path(&other) == eq, &format!("path:{n}:eq"), || format!("{log}: {x:?} == {other:?} is not {eq}"));
        }
        c.check(serde_yaml::to_value(&x).ok() == Some(t.clone().into()), &format!("path:{n}:serialized"), || format!("{log}: {:?}", serde_yaml::to_value(&x)));
        // equality, order and hash lookups by component
        let a: HashMap<T, u8> = [(x.clone(), 1)].into();
        let b: BTreeMap<T, u8> = [(x.clone(), 1)].into();
        let other = before.path();
        let same = comps(other) == comps(x.path());
        c.check(
            a.get(Path::new(&t)) == Some(&1) && b.get(Path::new(&t)) == Some(&1) && a.get(other).is_some() == same && b.get(other).is_some() == same && (before == x) == same,
            &format!("path:{n}:lookup"),
            || format!("{log}: {x:?} and {other:?}"),
        );
    }
    c.seen(&log);
    c.sample(|| log);
}
pub fn absolute_paths(c: &mut Case) {
    paths::<AbsolutePath>(c);
}
pub fn host_paths(c: &mut Case) {
    paths::<HostPath>(c);
    // an absolute path is a host path
    let mut r = c.rng.clone();
    let s = g::g_abs_path(&mut r);
    let h: HostPath = abs(&s).into();
    c.check(h.as_path().to_str() == Some(&s) && HostPath::new(s.as_str()).ok().as_ref() == Some(&h), "path:from absolute", || format!("{s:?}: {h:?}"));
}

/// The options of a text keep their order, however they are taken out (C15).
pub fn text_order(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..r.range(1, 7) {
        let k = g::g_cache_key(&mut r);
        if !keys.contains(&k) && k != "type" && k != "ref" {
            keys.push(k);
        }
    }
    let mut opts: Vec<(String, String)> = keys.into_iter().map(|k| (k, g::g_cache_option(&mut r))).collect();
    let reg = r.bool();
    let kept = opts.clone();
    let ty = if reg { "registry".to_owned() } else { r.pick_str(&["gha", "local", "s3", "inline", "other"]) };
    if reg {
        let at = r.below(opts.len() + 1);
        opts.insert(at, ("ref".to_owned(), g::g_image(&mut r)));
    }
    let s = std::iter::once(("type".to_owned(), ty)).chain(opts.clone()).map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",");
    let Some(Ok(v)) = c.guard("Cache", &s, || s.parse::<Cache>()) else {
        return c.event("skipped: rejected");
    };
    if v.options.len() != kept.len() {
        return c.event("skipped: repeated option");
    }
    c.seen(&s);
    c.sample(|| s.clone());
    let order = |t: Vec<String>| -> Vec<String> { t.into_iter().filter(|k| k != "type" && k != "ref").collect() };
    let want: Vec<String> = kept.iter().map(|x| x.0.clone()).collect();
    let text_keys = |t: &str| t.split(',').filter(|_| t.starts_with("type=")).map(|o| o.split('=').next().unwrap().to_owned()).collect::<Vec<_>>();
    let written = v.to_string();
    let yaml = serde_yaml::to_value(&v).ok().and_then(|v| v.as_str().map(str::to_owned)).unwrap_or_default();
    let taken: Vec<String> = v.clone().into_options().into_keys().map(String::from).collect();
    let first = taken.first().map(String::as_str) == Some("type");
    for (how, got) in [
        ("options", v.options.keys().map(|k| k.to_string()).collect()),
        ("written", order(text_keys(&written))),
        ("serialized", order(text_keys(&yaml))),
        ("into_options", order(taken)),
    ] {
        c.check(got == want, &format!("cache-order:{how}"), || format!("{s:?}: options in the order {got:?}"));
    }
    c.check(first, "cache-order:type first", || format!("{s:?}: into_options does not begin with the type"));
}

/// Every conversion of a list or mapping keeps the order of its elements, every time it is made.
pub fn conversion_order(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..r.range(2, 12) {
        let k: String = (0..r.range(1, 4)).map(|_| *r.pick(&['a', 'b', 'c', 'k', 'z', '0', '9', 'A', 'Z', '_'])).collect();
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    conversions(c, &mut r, keys, &[]);
}
/// Hundreds of names, at times more than 65536.
fn many_keys(c: &mut Case) -> (crate::rng::Rng, Vec<String>) {
    let mut r = c.rng.clone();
    let n = match c.index % 40 {
        0 => 257,
        7 => r.range(65_530, 65_545),
        _ => *r.pick(&[64u64, 100, 127, 255, 256, 511, 512, 1000, 1023, 2048, 4096]) + r.range(0, 2),
    };
    let (step, width) = (*r.pick(&[1u64, 7, 4099]), *r.pick(&[1usize, 3, 6]));
    let keys = (0..n).map(|i| format!("k{:0width$}", i * step % 65_551)).collect::<IndexSet<_>>();
    (r, keys.into_iter().collect())
}
pub fn many_short(c: &mut Case) {
    let (mut r, keys) = many_keys(c);
    conversions(c, &mut r, keys, &["depends_on", "networks", "env files"]);
}
pub fn many_ports(c: &mut Case) {
    let (mut r, keys) = many_keys(c);
    conversions(c, &mut r, keys, &["ports"]);
}
pub fn many_mounts(c: &mut Case) {
    let (mut r, keys) = many_keys(c);
    conversions(c, &mut r, keys, &["volumes"]);
}
pub fn many_items(c: &mut Case) {
    let (mut r, keys) = many_keys(c);
    conversions(c, &mut r, keys, &["map", "list", "item"]);
}
/// The conversions whose name starts with one of `only` (all when it is empty).
fn conversions(c: &mut Case, r: &mut crate::rng::Rng, keys: Vec<String>, only: &[&str]) {
    let n = keys.len();
    c.seen(&keys);
    c.event_n("elements", n as u64);
    c.sample(|| if n > 20 { format!("{n} keys from {:?} to {:?}", keys.first(), keys.last()) } else { format!("{keys:?}") });
    let wanted = |how: &str| only.is_empty() || only.iter().any(|o| how.starts_with(o));
    let tail: Vec<String> = (0..n).map(|_| if r.bool() { String::new() } else { format!("={}", r.below(3)) }).collect();
    let listed: Vec<String> = keys.iter().zip(&tail).map(|(k, t)| format!("{k}{t}")).collect();
    let as_map: String = keys.iter().zip(&tail).map(|(k, t)| format!("'{k}': {}\n", t.strip_prefix('=').unwrap_or("null"))).collect();
    let as_list: String = listed.iter().map(|l| format!("- '{l}'\n")).collect();
    let plain: String = keys.iter().map(|k| format!("- '{k}'\n")).collect();
    let mut seen: Vec<(&str, Vec<String>, &Vec<String>)> = Vec::new();
    let yaml = |t: &str| serde_yaml::from_str::<serde_yaml::Value>(t).unwrap();
    fn read<T: DeserializeOwned>(v: serde_yaml::Value) -> T {
        serde_yaml::from_value(v).unwrap()
    }
    for _ in 0..if ["map", "list", "item", "env files"].iter().any(|w| wanted(w)) { 2 } else { 0 } {
        let m: ListOrMap = read(yaml(&as_map));
        let l: ListOrMap = read(yaml(&as_list));
        seen.push(("map to list", m.clone().into_list().into_iter().collect(), &listed));
        seen.push(("list to list", l.clone().into_list().into_iter().collect(), &listed));
        seen.push(("list to map", l.clone().into_map().unwrap().into_keys().map(String::from).collect(), &keys));
        seen.push(("list to map on", l.into_map_split_on(&['=', ':']).unwrap().into_keys().map(String::from).collect(), &keys));
        seen.push(("map to map", m.into_map().unwrap().into_keys().map(String::from).collect(), &keys));
        let i: ItemOrList<String> = read(yaml(&plain));
        seen.push(("item or list", i.clone().into_list().into_iter().collect(), &keys));
        seen.push(("item or list into set", IndexSet::from(i).into_iter().collect(), &keys));
        let e: sv::EnvFile = read(yaml(&plain));
        let paths = |l: Vec<compose_spec::ShortOrLong<PathBuf, sv::env_file::Config>>| l.into_iter().map(|p| p.into_long().path.display().to_string()).collect();
        seen.push(("env files", paths(e.into_list()), &keys));
    }
    let ids: Vec<String> = keys.iter().map(|k| format!("{}{k}", if k.starts_with('_') { "i" } else { "" })).collect();
    let distinct = ids.iter().collect::<std::collections::BTreeSet<_>>().len() == n;
    let ids_list: String = ids.iter().map(|k| format!("- '{k}'\n")).collect();
    let ids_map: String = ids.iter().map(|k| format!("'{k}':\n")).collect();
    let deps_map: String = ids.iter().map(|k| format!("'{k}': {{condition: service_started}}\n")).collect();
    let strings = |k: &Identifier| k.to_string();
    if distinct && (wanted("depends_on") || wanted("networks")) {
        // one element with an option of its own, wherever it is, leaves no short form
        let at = r.below(n);
        let at = *r.pick(&[0, n / 2, n - 1, at]);
        let one = |own: &str, plain: &str| -> String { ids.iter().enumerate().map(|(i, k)| format!("'{k}': {}\n", if i == at { own } else { plain })).collect() };
        let d: sv::DependsOn = read(yaml(&one("{condition: service_healthy}", "{condition: service_started}")));
        let w: sv::network_config::Networks = read(yaml(&one("{priority: 1}", "")));
        let left = |how: &str, l: usize| format!("{how}: {l} of {n} names for a mapping whose entry {at} has an option");
        if let Some(l) = d.as_short_iter().map(|l| l.count()) {
            c.fail("conversion-order:depends_on with an option", left("depends_on", l));
        }
        if let Some(l) = w.as_short_iter().map(|l| l.count()) {
            c.fail("conversion-order:networks with an option", left("networks", l));
        }
        for _ in 0..2 {
            let d: sv::DependsOn = read(yaml(&ids_list));
            let dm: sv::DependsOn = read(yaml(&deps_map));
            seen.push(("depends_on as short", dm.as_short_iter().into_iter().flatten().map(strings).collect(), &ids));
            seen.push(("depends_on short", d.as_short_iter().into_iter().flatten().map(strings).collect(), &ids));
            seen.push(("depends_on to long", d.into_long().into_keys().map(String::from).collect(), &ids));
            let w: sv::network_config::Networks = read(yaml(&ids_list));
            let wm: sv::network_config::Networks = read(yaml(&ids_map));
            seen.push(("networks as short", wm.as_short_iter().into_iter().flatten().map(strings).collect(), &ids));
            seen.push(("networks short", w.as_short_iter().into_iter().flatten().map(strings).collect(), &ids));
            seen.push(("networks to long", w.into_long().into_keys().map(String::from).collect(), &ids));
        }
    }
    // mounts and ports in both forms, told apart by their container path or port
    let at: Vec<String> = keys.iter().map(|k| format!("/{k}")).collect();
    let nums: Vec<String> = (0..n.min(4096)).map(|_| 1 + r.below(60_000)).collect::<IndexSet<_>>().into_iter().map(|p| p.to_string()).collect();
    let long = r.chance(1, 2);
    let any = r.bool();
    let mounts: String = at
        .iter()
        .map(|p| if if any { r.bool() } else { long } { format!("- {{type: tmpfs, target: '{p}'}}\n") } else { format!("- 'vol:{p}'\n") })
        .collect();
    let published: String =
        nums.iter().map(|p| if if any { r.bool() } else { long } { format!("- {{target: {p}}}\n") } else { format!("- '{p}'\n") }).collect();
    for _ in 0..if wanted("volumes") || wanted("ports") { 2 } else { 0 } {
        let v: volumes::Volumes = read(yaml(&mounts));
        let target = |m: &volumes::Mount| m.common().target.as_path().display().to_string();
        seen.push(("volumes to long", volumes::into_long_iter(v.clone()).map(|m| target(&m)).collect(), &at));
        let short = volumes::into_short_iter(v).map(|m| m.map_or_else(|m| target(&m), |s| s.container_path.as_path().display().to_string()));
        seen.push(("volumes to short", short.collect(), &at));
        let p: ports::Ports = read(yaml(&published));
        seen.push(("ports to long", ports::into_long_iter(p.clone()).map(|p| p.target.to_string()).collect(), &nums));
        let short = ports::into_short_iter(p).map(|p| p.map_or_else(|p| p.target.to_string(), |s| s.ranges.container().to_string()));
        seen.push(("ports to short", short.collect(), &nums));
    }
    for (how, got, want) in seen.into_iter().filter(|s| wanted(s.0)) {
        c.event("conversions");
        let odd = || got.iter().zip(want).find(|p| p.0 != p.1);
        c.check(got == *want, &format!("conversion-order:{how}"), || match n > 20 {
            false => format!("{how}: {got:?} from {want:?}"),
            true => format!("{how}: {} from {}, the first odd one (got, wanted) {:?}", got.len(), want.len(), odd()),
        });
    }
}

/// The elements of an iterator are the same however it is driven, and its size hint is true.
fn driven<I: Iterator>(c: &mut Case, what: &str, log: &str, r: &mut crate::rng::Rng, make: impl Fn() -> I)
where
    I::Item: Debug + PartialEq,
{
    let mut i = make();
    let mut all = Vec::new();
    let mut hints = vec![i.size_hint()];
    while let Some(x) = i.next() {
        all.push(x);
        hints.push(i.size_hint());
    }
    let n = all.len();
    c.event("iterators driven");
    c.event_n("elements", n as u64);
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = n - k;
        c.check(*lo <= left && hi.map_or(true, |h| left <= h), &format!("iterator:{what}:size hint"), || format!("{log}: ({lo}, {hi:?}) with {left} left of {n}"));
    }
    c.check(make().count() == n, &format!("iterator:{what}:count"), || format!("{log}: {} of {n}", make().count()));
    c.check(make().last().as_ref() == all.last(), &format!("iterator:{what}:last"), || format!("{log}: {:?}, expected {:?}", make().last(), all.last()));
    let folded = make().fold(Vec::new(), |mut v, x| {
        v.push(x);
        v
    });
    c.check(folded == all, &format!("iterator:{what}:fold"), || format!("{log}: {folded:?}, expected {all:?}"));
    let collected: Vec<_> = make().collect();
    c.check(collected == all, &format!("iterator:{what}:collect"), || format!("{log}: {collected:?}, expected {all:?}"));
    for _ in 0..3 {
        // a few steps ahead, then the rest one way or another
        let mut i = make();
        let mut at = 0;
        let mut path = String::new();
        for _ in 0..r.range(1, 4) {
            let k = r.below(n + 2).min(r.below(4));
            let got = i.nth(k);
            path += &format!(".nth({k})");
            c.check(got.as_ref() == all.get(at + k), &format!("iterator:{what}:nth"), || format!("{log}{path}: {got:?}, expected {:?}", all.get(at + k)));
            at += k + 1;
            if at > n {
                break;
            }
        }
        if at <= n {
            let rest: Vec<_> = match r.below(3) {
                0 => i.collect(),
                1 => i.skip(0).collect(),
                _ => {
                    let mut v = Vec::new();
                    i.for_each(|x| v.push(x));
                    v
                }
            };
            c.check(rest[..] == all[at..], &format!("iterator:{what}:rest"), || format!("{log}{path}: {rest:?}, expected {:?}", &all[at..]));
        }
        let (skip, step) = (r.below(n + 1).min(5), 1 + r.below(3));
        let some: Vec<_> = make().skip(skip).step_by(step).collect();
        let want: Vec<_> = all.iter().skip(skip).step_by(step).collect();
        c.check(some.iter().eq(want.iter().copied()), &format!("iterator:{what}:skip"), || format!("{log}.skip({skip}).step_by({step}): {some:?}, expected {want:?}"));
    }
}
pub fn port_iterators(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = *r.pick(&[0u64, 1, 2, 7]) + r.range(0, 3);
    let (a, b) = (r.range(0, 65_535 - n), *r.pick(&[0, 1, 65_535 - n, 80.min(65_535 - n)]));
    let text = match (r.below(3), n) {
        (0, 0) => format!("{a}"),
        (0, _) => format!("{a}-{}", a + n),
        (_, 0) => format!("{b}:{a}"),
        _ => format!("{b}-{}:{a}-{}", b + n, a + n),
    };
    let port: ports::ShortPort = text.parse().unwrap();
    c.seen(&text);
    c.sample(|| text.clone());
    driven(c, "ShortRanges", &text, &mut r, || port.ranges.into_iter());
    driven(c, "Range", &text, &mut r, || port.ranges.container().into_iter());
    driven(c, "ShortPort::into_long_iter", &text, &mut r, || port.clone().into_long_iter());
    let mut list: Vec<serde_yaml::Value> = vec![text.clone().into()];
    for k in 0..r.range(0, 4) {
        list.push(match r.below(3) {
            0 => format!("{}-{}", 100 * k + 1, 100 * k + 3).into(),
            1 => format!("10.0.0.{k}:{}:{k}", k + 1).into(),
            _ => serde_yaml::from_str(&format!("{{target: {}, name: {}}}", k + 1, if r.bool() { "n" } else { "null" })).unwrap(),
        });
    }
    let all: ports::Ports = serde_yaml::from_value(list.clone().into()).unwrap();
    let log = format!("{list:?}");
    driven(c, "ports::into_long_iter", &log, &mut r, || ports::into_long_iter(all.clone()));
    driven(c, "ports::into_short_iter", &log, &mut r, || ports::into_short_iter(all.clone()));
}
pub fn mount_iterators(c: &mut Case) {
    let mut r = c.rng.clone();
    let list: Vec<serde_yaml::Value> = (0..r.range(0, 6))
        .map(|k| match r.below(4) {
            0 => format!("/t{k}").into(),
            1 => format!("v{k}:/t{k}:ro").into(),
            2 => format!("./h{k}:/t{k}").into(),
            _ => serde_yaml::from_str(&format!("{{type: {}, target: /t{k}}}", if r.bool() { "tmpfs" } else { "volume" })).unwrap(),
        })
        .collect();
    let log = format!("{list:?}");
    c.seen(&log);
    c.sample(|| log.clone());
    let all: volumes::Volumes = serde_yaml::from_value(list.into()).unwrap();
    driven(c, "volumes::into_long_iter", &log, &mut r, || volumes::into_long_iter(all.clone()));
    driven(c, "volumes::into_short_iter", &log, &mut r, || volumes::into_short_iter(all.clone()));
}
pub fn short_iterators(c: &mut Case) {
    let mut r = c.rng.clone();
    let ids: Vec<String> = (0..r.range(0, 6)).map(|k| format!("{}{k}", *r.pick(&["a", "B", "0"]))).collect();
    let listed = serde_yaml::Value::from(ids.clone());
    let mapped = |with: &str| -> serde_yaml::Value { serde_yaml::Value::Mapping(ids.iter().map(|k| (k.clone().into(), serde_yaml::from_str(with).unwrap())).collect()) };
    let log = format!("{ids:?}");
    c.seen(&log);
    c.sample(|| log.clone());
    for (how, v) in [("list", listed.clone()), ("map", mapped("{condition: service_started}"))] {
        let d: sv::DependsOn = serde_yaml::from_value(v).unwrap();
        if d.as_short_iter().is_some() {
            driven(c, &format!("depends_on {how}"), &log, &mut r, || d.as_short_iter().unwrap());
        } else {
            c.fail(format!("iterator:depends_on {how}"), log.clone());
        }
    }
    for (how, v) in [("list", listed), ("map", mapped("null"))] {
        let w: sv::network_config::Networks = serde_yaml::from_value(v).unwrap();
        if w.as_short_iter().is_some() {
            driven(c, &format!("networks {how}"), &log, &mut r, || w.as_short_iter().unwrap());
        } else {
            c.fail(format!("iterator:networks {how}"), log.clone());
        }
    }
    let two = || (ids.clone().into_iter(), ids.clone().into_iter());
    driven(c, "ShortOrLong short", &log, &mut r, || compose_spec::ShortOrLong::<_, std::vec::IntoIter<String>>::Short(two().0));
    driven(c, "ShortOrLong long", &log, &mut r, || compose_spec::ShortOrLong::<std::vec::IntoIter<String>, _>::Long(two().1));
}
