//! What rejections say about their cause (C26).
use crate::checks::strings::texts;
use crate::mon::Case;
use crate::rng::Rng;
use crate::strs::{self as g, tcs, DynTc};
use compose_spec::service::build::{Cache, CacheOption, InvalidCacheOptionError, Network as BuildNetwork, ParseCacheError, SshAuth, SshAuthId, SshAuthIdError};
use compose_spec::service::device::{CgroupRule, Kind, MajorMinorNumber, ParseCgroupRuleError, ParseDeviceError, Permissions};
use compose_spec::service::image::{InvalidDigestError, InvalidImageError, InvalidNamePartError, InvalidTagError};
use compose_spec::service::network_config::{NetworkMode, ParseMacAddressError};
use compose_spec::service::ports::{ParseRangeError, ParseShortPortError, ParseShortRangesError, Range, ShortPort, ShortRanges};
use compose_spec::service::user::{self, InvalidNameError};
use compose_spec::service::volumes::{HostPath, ParseShortVolumeError, ParseSourceError, ShortVolume, Source};
use compose_spec::service::{
    platform, AbsolutePath, ByteValue, CpuSet, Device, Expose, Hostname, IdOrName, Image, InvalidHostnameError, InvalidResourceError, Ipc, Limit,
    Link, MacAddress, ParseByteValueError, ParseCpuSetError, Platform, Resource, User, VolumesFrom, VolumesFromSource,
};
use compose_spec::service::blkio_config::Weight;
use compose_spec::service::deploy::resources::{Count, Cpus, InvalidCpusError};
use compose_spec::service::{OomScoreAdj, Percent};
use crate::checks::models::{gen_duration_text, gen_scalar_text};
use compose_spec::{duration, Number, ParseNumberError, TryFromNumberError, TryFromValueError, Value};
use compose_spec::{ExtensionKey, Identifier, InvalidExtensionKeyError, InvalidIdentifierError, InvalidMapKeyError, MapKey, Name};
use serde::de::value::{Error as VErr, StrDeserializer, StringDeserializer};
use serde::de::DeserializeOwned;
use std::error::Error;
use std::str::FromStr;

/// An error and everything below it, outermost first.
fn chain(e: &dyn Error) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut e = e;
    while let Some(s) = e.source() {
        v.push(s.to_string());
        e = s;
    }
    v
}
/// The text between the n-th pair of backticks (or quotes) of a message.
fn quoted(m: &str, n: usize) -> Option<String> {
    let q = if m.contains('`') { '`' } else { '\'' };
    m.split(q).nth(2 * n + 1).map(str::to_owned)
}
fn quoted_char(m: &str) -> Option<char> {
    let q = if m.contains('`') { '`' } else { '\'' };
    m[m.find(q)? + 1..].chars().next()
}

struct Said {
    chain: Vec<String>,
    /// What is untrue about the error, judged from the rejected text.
    untrue: Option<String>,
    /// Readers whose message does not contain the whole chain: (reader, message).
    lost: Vec<(&'static str, String)>,
}
type Ask = Box<dyn Fn(&str) -> Option<Said> + Sync + Send>;

fn contains_in_order(m: &str, parts: &[String]) -> bool {
    let mut from = 0;
    parts.iter().all(|p| match m[from..].find(p.as_str()) {
        Some(i) => {
            from += i + p.len();
            true
        }
        None => false,
    })
}

fn ask<T>(truth: fn(&str, &T::Err) -> bool) -> Ask
where
    T: FromStr,
    T::Err: Error + 'static,
{
    Box::new(move |s| {
        let e = s.parse::<T>().err()?;
        let untrue = (!truth(s, &e)).then(|| format!("{e:?}"));
        Some(Said { chain: chain(&e), untrue, lost: vec![] })
    })
}
fn ask_serde<T>(truth: fn(&str, &T::Err) -> bool) -> Ask
where
    T: FromStr + DeserializeOwned,
    T::Err: Error + 'static,
{
    let inner = ask::<T>(truth);
    Box::new(move |s| {
        let mut said = inner(s)?;
        let json = serde_json::to_string(s).unwrap();
        // only where serde_yaml itself reads the quoted text as the same string
        let same = matches!(serde_yaml::from_str::<serde_yaml::Value>(&json), Ok(serde_yaml::Value::String(x)) if x == s);
        let readers: [(&'static str, Option<String>); 6] = [
            ("serde_yaml::from_value", serde_yaml::from_value::<T>(serde_yaml::Value::String(s.to_owned())).err().map(|e| e.to_string())),
            if same {
                ("serde_yaml::from_str", serde_yaml::from_str::<T>(&json).err().map(|e| e.to_string()))
            } else {
                ("deserialize str", T::deserialize(StrDeserializer::<serde_yaml::Error>::new(s)).err().map(|e| e.to_string()))
            },
            ("deserialize str", T::deserialize(StrDeserializer::<VErr>::new(s)).err().map(|e| e.to_string())),
            ("deserialize String", T::deserialize(StringDeserializer::<VErr>::new(s.to_owned())).err().map(|e| e.to_string())),
            ("serde_json::from_str", serde_json::from_str::<T>(&json).err().map(|e| e.to_string())),
            ("serde_json::from_value", serde_json::from_value::<T>(serde_json::Value::String(s.to_owned())).err().map(|e| e.to_string())),
        ];
        for (r, m) in readers {
            match m {
                Some(m) if contains_in_order(&m, &said.chain) => {}
                Some(m) => said.lost.push((r, m)),
                None => said.lost.push((r, "accepted".to_owned())),
            }
        }
        Some(said)
    })
}

// ---- is what the error says true of the text? ----------------------------------------------

fn alnum(c: char) -> bool {
    c.is_ascii_alphanumeric()
}
fn identifier(s: &str, e: &InvalidIdentifierError) -> bool {
    match e {
        InvalidIdentifierError::Empty => s.is_empty(),
        InvalidIdentifierError::Start(c) => s.starts_with(*c) && !alnum(*c),
        InvalidIdentifierError::Character(c) => s.contains(*c) && !alnum(*c) && !"._-".contains(*c),
    }
}
fn map_key(s: &str, e: &InvalidMapKeyError) -> bool {
    match e {
        InvalidMapKeyError::Empty => s.is_empty(),
        InvalidMapKeyError::MultipleLines => s.contains('\n'),
    }
}
fn ext_key(s: &str, e: &InvalidExtensionKeyError) -> bool {
    match e {
        InvalidExtensionKeyError::MissingPrefix(k) => &**k == s && !s.starts_with("x-"),
        InvalidExtensionKeyError::MultipleLines => s.contains('\n'),
    }
}
fn project(s: &str, e: &compose_spec::InvalidNameError) -> bool {
    use compose_spec::InvalidNameError as E;
    let start = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    match e {
        E::Empty => s.is_empty(),
        E::Start(c) => s.starts_with(*c) && !start(*c),
        E::Character(c) => s.contains(*c) && !start(*c) && !"_-".contains(*c),
    }
}
fn hostname(s: &str, e: &InvalidHostnameError) -> bool {
    match e {
        InvalidHostnameError::LabelEmpty => s.split('.').any(str::is_empty),
        InvalidHostnameError::Character(c) => s.contains(*c) && !alnum(*c) && !".-".contains(*c),
        InvalidHostnameError::LabelStartEnd => s.split('.').any(|l| l.starts_with('-') || l.ends_with('-')),
    }
}
fn resource(s: &str, e: &InvalidResourceError) -> bool {
    match e {
        InvalidResourceError::Empty => s.is_empty(),
        InvalidResourceError::Character(c) => s.contains(*c) && !c.is_ascii_lowercase(),
    }
}
fn user_name(s: &str, e: &InvalidNameError) -> bool {
    match e {
        InvalidNameError::Empty => s.is_empty(),
        InvalidNameError::Character(c) => s.contains(*c) && !alnum(*c) && !"_-$".contains(*c),
        InvalidNameError::DollarSign => s.find('$').is_some_and(|i| i + 1 < s.len()),
        InvalidNameError::Numeric => s.chars().all(|c| c.is_ascii_digit() || c == '$'),
        InvalidNameError::Start => s.starts_with('-'),
        InvalidNameError::Length => s.chars().count() > 32,
    }
}
fn user(s: &str, e: &InvalidNameError) -> bool {
    match s.split_once(':') {
        Some((u, g)) => user_name(u, e) || user_name(g, e),
        None => user_name(s, e),
    }
}
fn tag(t: &str, e: &InvalidTagError) -> bool {
    match e {
        InvalidTagError::Character(c) => t.contains(*c) && !alnum(*c) && !"._-".contains(*c),
        InvalidTagError::Empty => t.is_empty(),
        InvalidTagError::Length => t.chars().count() > 128,
        _ => true,
    }
}
fn digest(d: &str, e: &InvalidDigestError) -> bool {
    let (a, enc) = d.split_once(':').unwrap_or((d, ""));
    let low = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    let sep = |c: char| "+._-".contains(c);
    match e {
        InvalidDigestError::MissingAlgorithm => !d.contains(':') || a.is_empty(),
        InvalidDigestError::AlgorithmSeparators => a.as_bytes().windows(2).any(|w| sep(w[0] as char) && sep(w[1] as char)),
        InvalidDigestError::AlgorithmCharacter(c) => a.contains(*c) && !low(*c) && !sep(*c),
        InvalidDigestError::EncodeCharacter(c) => enc.contains(*c) && !alnum(*c) && !"=_-".contains(*c),
        InvalidDigestError::AlgorithmStart => a.starts_with(|c| !low(c)),
        InvalidDigestError::AlgorithmEnd => a.ends_with(|c| !low(c)),
        InvalidDigestError::EncodeEmpty => d.ends_with(':'),
        _ => true,
    }
}
fn name_part(n: &str, e: &InvalidNamePartError) -> bool {
    let low = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    let seps = |p: &str| {
        p.split(low).any(|run| !matches!(run, "" | "." | "_" | "__") && run.contains(|c| "._-".contains(c)) && !run.chars().all(|c| c == '-'))
    };
    match e {
        InvalidNamePartError::MultipleSeparators => n.split('/').any(seps),
        InvalidNamePartError::Character(c) => n.contains(*c) && !low(*c) && !"._-".contains(*c),
        InvalidNamePartError::Empty => n.split('/').any(|p| p.is_empty() || p.starts_with(':')),
        InvalidNamePartError::Start => n.split('/').any(|p| p.starts_with(|c| !low(c))),
        InvalidNamePartError::End => n.split('/').any(|p| p.trim_end_matches(|c| c != ':').trim_end_matches(':').ends_with(|c| !low(c)) || p.ends_with(|c| !low(c))),
        InvalidNamePartError::RegistryPort { source, port } => n.contains(&format!(":{port}")) && port.parse::<u16>().err().as_ref() == Some(source),
        _ => true,
    }
}
fn image(s: &str, e: &InvalidImageError) -> bool {
    let before_at = s.split('@').next().unwrap();
    let after_slash = before_at.rfind('/').map_or(0, |i| i + 1);
    let colon = before_at[after_slash..].find(':').map(|i| i + after_slash);
    match e {
        InvalidImageError::Digest(e) => s.split_once('@').is_some_and(|(_, d)| digest(d, e)),
        InvalidImageError::Tag(e) => colon.is_some_and(|i| tag(&before_at[i + 1..], e) || before_at.rsplit(':').next().is_some_and(|t| tag(t, e))),
        InvalidImageError::TagAndDigest => s.contains('@') && colon.is_some(),
        InvalidImageError::NamePart(e) => name_part(&before_at[..colon.unwrap_or(before_at.len())], e) || before_at.rfind(':').is_some_and(|i| name_part(&before_at[..i], e)),
    }
}
fn cache_option(s: &str, e: &InvalidCacheOptionError) -> bool {
    match e {
        InvalidCacheOptionError::Empty => s.is_empty(),
        InvalidCacheOptionError::Whitespace => s.contains(char::is_whitespace),
    }
}
fn cache(s: &str, e: &ParseCacheError) -> bool {
    match e {
        // A cache location without options is an image.
        ParseCacheError::Image(e) => image(s, e) || s.split(',').any(|o| o.strip_prefix("ref=").is_some_and(|r| image(r, e))),
        ParseCacheError::TypeFirst => !s.starts_with("type="),
        ParseCacheError::CacheOption(e) => s.split([',', '=']).any(|o| cache_option(o, e)) || matches!(e, InvalidCacheOptionError::Empty),
        ParseCacheError::MissingRef => s.starts_with("type=registry") && !s.split(',').any(|o| o.starts_with("ref=")),
        _ => true,
    }
}
fn ssh_id(s: &str, e: &SshAuthIdError) -> bool {
    let (a, _) = s.split_once('=').unwrap_or((s, ""));
    match e {
        SshAuthIdError::EmptyId => a.is_empty(),
        SshAuthIdError::MissingPath => !s.split_once('=').is_some_and(|(_, p)| !p.is_empty()),
    }
}
fn permissions_of<E: Error>(s: &str, e: &E) -> bool {
    quoted_char(&e.to_string()).is_some_and(|c| s.contains(c) && !"rwm".contains(c))
}
fn device(s: &str, e: &ParseDeviceError) -> bool {
    match e {
        ParseDeviceError::Empty => s.is_empty(),
        ParseDeviceError::ContainerPathMissing => !s.contains(':'),
        ParseDeviceError::ContainerPathAbsolute(_) => s.split(':').nth(1).is_some_and(|c| !c.starts_with('/')),
        ParseDeviceError::Permissions(e) => s.splitn(3, ':').nth(2).is_some_and(|p| permissions_of(p, e)),
    }
}
fn kind_of<E: Error>(s: &str, e: &E) -> bool {
    let want = format!("`{}`", s);
    e.to_string().contains(&want) && !matches!(s, "a" | "b" | "c")
}
fn cgroup_rule(s: &str, e: &ParseCgroupRuleError) -> bool {
    match e {
        ParseCgroupRuleError::Empty => s.is_empty(),
        ParseCgroupRuleError::Kind(e) => kind_of(s.split(' ').next().unwrap(), e),
        ParseCgroupRuleError::MajorMinorNumbersMissing => s.split(' ').nth(1).map_or(true, |n| !n.contains(':')),
        ParseCgroupRuleError::MajorMinorNumber(e) => s.split([' ', ':']).any(|n| n != "*" && n.parse::<u16>().err().as_ref() == Some(e)),
        ParseCgroupRuleError::Permissions(e) => s.splitn(3, ' ').nth(2).is_some_and(|p| permissions_of(p, e)),
    }
}
fn major_minor(s: &str, e: &std::num::ParseIntError) -> bool {
    s != "*" && s.parse::<u16>().err().as_ref() == Some(e)
}
fn range(s: &str, e: &ParseRangeError) -> bool {
    let parts = || s.split('-');
    match e {
        ParseRangeError::Int { source, value } => (parts().any(|p| p == value) || s.split_once('-').is_some_and(|(_, e)| e == value)) && value.parse::<u16>().err().as_ref() == Some(source),
        ParseRangeError::Range(e) => {
            let m = e.to_string();
            let n = |i| quoted(&m, i).and_then(|t| t.parse::<u16>().ok());
            s.split_once('-').is_some_and(|(a, b)| n(0).is_some() && n(0) == a.parse().ok() && n(1) == b.parse().ok() && n(0) > n(1))
        }
    }
}
fn size(s: &str) -> Option<u32> {
    let (a, b) = s.split_once('-').unwrap_or((s, s));
    let (a, b): (u16, u16) = (a.parse().ok()?, b.parse().ok()?);
    (a <= b).then(|| u32::from(b - a) + 1)
}
fn short_ranges(s: &str, e: &ParseShortRangesError) -> bool {
    match e {
        ParseShortRangesError::ShortRanges(e) => {
            let m = e.to_string();
            let n = |i| quoted(&m, i).and_then(|t| t.parse::<u32>().ok());
            s.split_once(':').is_some_and(|(h, c)| {
                let (h, c) = (size(h), size(c));
                // the library counts up to 65535
                let same = |said: Option<u32>, real: Option<u32>| said.is_some() && (said == real || real == Some(65536));
                same(n(0), h) && same(n(1), c) && h != c
            })
        }
        ParseShortRangesError::Range(e) => {
            let (a, b) = s.split_once(':').unwrap_or((s, ""));
            range(a, e) || range(b, e)
        }
    }
}
fn short_port(s: &str, e: &ParseShortPortError) -> bool {
    let s = s.split('/').next().unwrap();
    match e {
        ParseShortPortError::IpAddr { source, value } => s.contains(value.as_str()) && value.parse::<std::net::IpAddr>().err().as_ref() == Some(source),
        ParseShortPortError::ShortRanges(e) => short_ranges(s, e) || (0..s.len()).any(|i| s.as_bytes()[i] == b':' && short_ranges(&s[i + 1..], e)),
    }
}
fn expose(s: &str, e: &ParseRangeError) -> bool {
    range(s.split('/').next().unwrap(), e)
}
fn mac(s: &str, e: &ParseMacAddressError) -> bool {
    match e {
        ParseMacAddressError::Length => s.split(':').count() != 6,
        ParseMacAddressError::Int { source, value } => s.split(':').any(|p| p == value) && u8::from_str_radix(value, 16).err().as_ref() == Some(source),
    }
}
fn after_prefix(s: &str, e: &dyn Error, prefixes: &[&str]) -> bool {
    e.source().and_then(|e| e.downcast_ref::<InvalidIdentifierError>()).is_some_and(|e| prefixes.iter().any(|p| s.strip_prefix(p).is_some_and(|r| identifier(r, e))))
}
fn link(s: &str, e: &InvalidIdentifierError) -> bool {
    identifier(s.split(':').next().unwrap(), e)
}
fn vf_source(s: &str, e: &InvalidIdentifierError) -> bool {
    identifier(s.strip_prefix("container:").unwrap_or(s), e)
}
fn volumes_from(s: &str, e: &InvalidIdentifierError) -> bool {
    vf_source(s.strip_suffix(":ro").or_else(|| s.strip_suffix(":rw")).unwrap_or(s), e)
}
fn host_path_bad(s: &str) -> bool {
    !(s == "." || s == ".." || s.starts_with("./") || s.starts_with("../") || s.starts_with('/'))
}
fn source(s: &str, e: &ParseSourceError) -> bool {
    match e {
        ParseSourceError::HostPath(_) => host_path_bad(s),
        ParseSourceError::Identifier(e) => identifier(s, e),
    }
}
fn short_volume(s: &str, e: &ParseShortVolumeError) -> bool {
    let parts: Vec<&str> = s.splitn(3, ':').collect();
    let options: Vec<&str> = parts.get(2).map(|o| o.split(',').collect()).unwrap_or_default();
    let n = |o: &str| options.iter().filter(|x| **x == o).count();
    let container = if parts.len() == 1 { parts[0] } else { parts[1] };
    match e {
        ParseShortVolumeError::Source(e) => parts.len() > 1 && source(parts[0], e),
        ParseShortVolumeError::AbsoluteContainerPath(p) => p == container && !p.starts_with('/'),
        ParseShortVolumeError::ReadWriteAndReadOnly => n("rw") > 0 && n("ro") > 0,
        ParseShortVolumeError::SELinuxSharedAndPrivate => n("z") > 0 && n("Z") > 0,
        ParseShortVolumeError::DuplicateOption(o) => n(o) > 1,
        ParseShortVolumeError::UnknownOption(o) => n(o) > 0 && !["rw", "ro", "z", "Z"].contains(&o.as_str()),
    }
}
fn cpuset(s: &str, e: &ParseCpuSetError) -> bool {
    match e {
        ParseCpuSetError::Int { source, value } => {
            s.contains(value.as_str()) && value.parse::<u64>().err().as_ref() == Some(source)
        }
        ParseCpuSetError::Range(r) => {
            s.split(',').any(|p| p == r) && r.split_once('-').is_some_and(|(a, b)| matches!((a.parse::<u64>(), b.parse::<u64>()), (Ok(a), Ok(b)) if a > b))
        }
    }
}
fn byte_value(s: &str, e: &ParseByteValueError) -> bool {
    match e {
        ParseByteValueError::Empty => s.is_empty(),
        ParseByteValueError::UnknownUnit(v) => v == s,
        ParseByteValueError::ParseInt { source, value } => s.starts_with(value.as_str()) && value.parse::<u64>().err().as_ref() == Some(source),
    }
}
fn int_u32(s: &str, e: &std::num::ParseIntError) -> bool {
    s.parse::<u32>().err().as_ref() == Some(e)
}
fn int_u64(s: &str, e: &std::num::ParseIntError) -> bool {
    s.parse::<u64>().err().as_ref() == Some(e)
}
fn named_part(s: &str, e: &platform::ParseError) -> bool {
    let m = e.to_string();
    let (Some(i), Some(j)) = (m.find('`'), m.rfind('`')) else { return false };
    let v = &m[i + 1..j];
    s.contains(v) && (v == s || s.split('/').any(|p| p == v) || s.split_once('/').is_some_and(|(_, r)| r == v))
}
/// Durations have no type of their own to parse into.
struct Dur;
impl FromStr for Dur {
    type Err = duration::ParseDurationError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        duration::parse(s).map(|_| Self)
    }
}
fn is_digit(c: char) -> bool {
    c.is_ascii_digit()
}
/// Pairs of digits and unit; the rest of the text from the first place where one is missing.
fn duration_pieces(mut s: &str) -> (Vec<(&str, &str)>, &str) {
    let mut v = Vec::new();
    while !s.is_empty() {
        let n = s.len() - s.trim_start_matches(is_digit).len();
        let rest = &s[n..];
        let u = rest.len() - rest.trim_start_matches(|c| !is_digit(c)).len();
        if n == 0 || u == 0 {
            return (v, s);
        }
        v.push((&s[..n], &rest[..u]));
        s = &rest[u..];
    }
    (v, s)
}
fn duration_error(s: &str, e: &duration::ParseDurationError) -> bool {
    use duration::ParseDurationError as E;
    let (pieces, rest) = duration_pieces(s);
    let of = |u: &str| match u {
        "h" => Some(3_600_000_000u128),
        "m" => Some(60_000_000),
        "s" => Some(1_000_000),
        "ms" => Some(1000),
        "us" => Some(1),
        _ => None,
    };
    match e {
        E::Empty => s.is_empty(),
        E::MissingUnit(x) => x == rest && !x.is_empty() && x.chars().all(is_digit),
        E::NoDigits(x) => x == rest && !x.starts_with(is_digit),
        E::InvalidUnit(u) => pieces.iter().any(|p| p.1 == u) && of(u).is_none(),
        E::Overflow => {
            let mut total = 0u128;
            for (n, u) in pieces {
                let Some(n) = n.parse::<u64>().ok() else { return true };
                total = total.saturating_add(u128::from(n) * of(u).unwrap_or(0));
            }
            total / 1_000_000 > u128::from(u64::MAX)
        }
    }
}
fn number_error(s: &str, e: &ParseNumberError) -> bool {
    let body = s.strip_prefix(['+', '-']).unwrap_or(s);
    let digits = body.chars().all(is_digit);
    match e {
        ParseNumberError::Int(x) if s.starts_with('-') => digits && s.parse::<i64>().err().as_ref() == Some(x),
        ParseNumberError::Int(x) => digits && s.parse::<u64>().err().as_ref() == Some(x),
        ParseNumberError::Float(x) => !digits && s.parse::<f64>().err().as_ref() == Some(x),
    }
}
fn always<E>(_: &str, _: &E) -> bool {
    true
}

struct Row {
    name: &'static str,
    ask: Ask,
}
fn rows() -> &'static [Row] {
    static T: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let r = |name, ask| Row { name, ask };
        vec![
            r("Identifier", ask_serde::<Identifier>(identifier)),
            r("MapKey", ask_serde::<MapKey>(map_key)),
            r("ExtensionKey", ask_serde::<ExtensionKey>(ext_key)),
            r("Hostname", ask_serde::<Hostname>(hostname)),
            r("user::Name", ask_serde::<user::Name>(user_name)),
            r("project Name", ask_serde::<Name>(project)),
            r("IdOrName", ask_serde::<IdOrName>(user_name)),
            r("User", ask_serde::<User>(user)),
            r("ulimit::Resource", ask_serde::<Resource>(resource)),
            r("Image", ask_serde::<Image>(image)),
            r("CacheOption", ask::<CacheOption>(cache_option)),
            r("Cache", ask_serde::<Cache>(cache)),
            r("SshAuth", ask_serde::<SshAuth>(ssh_id)),
            r("SshAuthId", ask::<SshAuthId>(ssh_id)),
            r("build Network", ask_serde::<BuildNetwork>(identifier)),
            r("Device", ask_serde::<Device>(device)),
            r("device Permissions", ask::<Permissions>(permissions_of)),
            r("CgroupRule", ask_serde::<CgroupRule>(cgroup_rule)),
            r("device Kind", ask::<Kind>(kind_of)),
            r("MajorMinorNumber", ask::<MajorMinorNumber>(major_minor)),
            r("ports Range", ask_serde::<Range>(range)),
            r("ports ShortRanges", ask_serde::<ShortRanges>(short_ranges)),
            r("ShortPort", ask_serde::<ShortPort>(short_port)),
            r("Expose", ask_serde::<Expose>(expose)),
            r("AbsolutePath", ask_serde::<AbsolutePath>(|s, _| !s.starts_with('/'))),
            r("HostPath", ask_serde::<HostPath>(|s, _| host_path_bad(s))),
            r("volumes Source", ask::<Source>(source)),
            r("ShortVolume", ask_serde::<ShortVolume>(short_volume)),
            r("MacAddress", ask_serde::<MacAddress>(mac)),
            r("NetworkMode", ask_serde::<NetworkMode>(|s, e| after_prefix(s, e, &["service:", "container:"]))),
            r("Ipc", ask_serde::<Ipc>(|s, e| after_prefix(s, e, &["service:"]))),
            r("Link", ask_serde::<Link>(link)),
            r("VolumesFrom", ask_serde::<VolumesFrom>(volumes_from)),
            r("VolumesFromSource", ask_serde::<VolumesFromSource>(vf_source)),
            r("CpuSet", ask_serde::<CpuSet>(cpuset)),
            r("ByteValue", ask_serde::<ByteValue>(byte_value)),
            r("Limit<u32>", ask::<Limit<u32>>(int_u32)),
            r("Limit<u64>", ask::<Limit<u64>>(int_u64)),
            r("Limit<ByteValue>", ask::<Limit<ByteValue>>(byte_value)),
            r("Duration", ask::<Dur>(duration_error)),
            r("Count", ask::<Count>(int_u64)),
            r("Number", ask::<Number>(number_error)),
            r("Platform", ask_serde::<Platform>(always)),
            r("platform Os", ask_serde::<platform::Os>(named_part)),
            r("platform Arch", ask_serde::<platform::Arch>(named_part)),
        ]
    })
}

/// Type names whose own table entry generates texts for the row.
fn texts_for(r: &mut Rng, row: &Row, n: usize) -> Vec<String> {
    if row.name == "Duration" {
        return (0..n)
            .map(|_| {
                let s = gen_duration_text(r);
                let s = if r.chance(1, 16) { super::strings::long_text(r, &s, &[64, 128, 256, 512]) } else { s };
                if r.bool() { s } else { g::mutate(r, &s, "0123hmsund .-+µ") }
            })
            .collect();
    }
    if row.name == "Number" {
        return (0..n).map(|_| gen_scalar_text(r)).collect();
    }
    match tcs().iter().find(|t| t.name() == row.name) {
        Some(t) => texts(r, &**t as &dyn DynTc, n),
        None => (0..n).map(|_| { let s = g::g_free(r); let s = if r.chance(1, 24) { super::strings::long_text(r, &s, &[64, 128, 256, 512]) } else { s }; g::mutate(r, &s, "aZ0._-= :/") }).collect(),
    }
}

pub fn rejections(c: &mut Case) {
    let rows = rows();
    let row = &rows[c.index as usize % rows.len()];
    let v = texts_for(&mut c.rng.clone(), row, 40);
    c.sample(|| format!("{}: {:?}", row.name, &v[..3]));
    for s in &v {
        // A CPU range of any length is stored number by number (see C03's known finding).
        if row.name == "CpuSet" && s.split([',', '-']).any(|n| n.trim_start_matches(['0', '+']).len() > 4) {
            continue;
        }
        let Some(got) = c.guard(row.name, s, || (row.ask)(s)) else { continue };
        let Some(said) = got else {
            c.event("accepted");
            continue;
        };
        c.seen(&(row.name, s));
        c.event("rejected");
        if said.chain.len() > 1 {
            c.event("with causes");
        }
        c.check(said.untrue.is_none(), &format!("untrue:{}", row.name), || {
            format!("{} rejects {s:?} with {:?}, which is not true of the text: {}", row.name, said.chain, said.untrue.as_deref().unwrap_or(""))
        });
        for (reader, m) in &said.lost {
            c.fail(format!("cause lost:{}:{reader}", row.name), format!("{} {s:?}: parsing reports {:?}, {reader} only {m:?}", row.name, said.chain));
        }
    }
}

/// Where in a document a text of a type can stand: `T` is replaced by the text.
static PLACES: &[(&str, &str)] = &[
    ("project Name", r#"{"name": T, "services": {}}"#),
    ("Image", r#"{"services": {"a": {"image": T}}}"#),
    ("Hostname", r#"{"services": {"a": {"hostname": T}}}"#),
    ("Hostname", r#"{"services": {"a": {"domainname": T}}}"#),
    ("Identifier", r#"{"services": {"a": {"container_name": T}}}"#),
    ("Identifier", r#"{"services": {"a": {"depends_on": [T]}}}"#),
    ("Identifier", r#"{"services": {"a": {"depends_on": {T: {"condition": "service_started"}}}}}"#),
    ("Identifier", r#"{"services": {"a": {"extends": {"service": T}}}}"#),
    ("Identifier", r#"{"services": {"a": {"networks": [T]}}}"#),
    ("Identifier", r#"{"services": {"a": {"networks": {T: {}}}}}"#),
    ("Identifier", r#"{"services": {"a": {"configs": [T]}}}"#),
    ("Identifier", r#"{"services": {"a": {"configs": [{"source": T}]}}}"#),
    ("Identifier", r#"{"services": {"a": {"secrets": [T]}}}"#),
    ("Identifier", r#"{"services": {T: {}}}"#),
    ("Identifier", r#"{"services": {}, "networks": {T: {}}}"#),
    ("Identifier", r#"{"services": {}, "volumes": {T: {}}}"#),
    ("Identifier", r#"{"services": {}, "configs": {T: {"file": "a"}}}"#),
    ("Identifier", r#"{"services": {}, "secrets": {T: {"file": "a"}}}"#),
    ("Platform", r#"{"services": {"a": {"platform": T}}}"#),
    ("NetworkMode", r#"{"services": {"a": {"network_mode": T}}}"#),
    ("Ipc", r#"{"services": {"a": {"ipc": T}}}"#),
    ("User", r#"{"services": {"a": {"user": T}}}"#),
    ("IdOrName", r#"{"services": {"a": {"group_add": [T]}}}"#),
    ("CpuSet", r#"{"services": {"a": {"cpuset": T}}}"#),
    ("ByteValue", r#"{"services": {"a": {"mem_limit": T}}}"#),
    ("ByteValue", r#"{"services": {"a": {"shm_size": T}}}"#),
    ("ByteValue", r#"{"services": {"a": {"deploy": {"resources": {"limits": {"memory": T}}}}}}"#),
    ("ByteValue", r#"{"services": {"a": {"build": {"context": ".", "shm_size": T}}}}"#),
    ("AbsolutePath", r#"{"services": {"a": {"working_dir": T}}}"#),
    ("AbsolutePath", r#"{"services": {"a": {"tmpfs": T}}}"#),
    ("AbsolutePath", r#"{"services": {"a": {"tmpfs": [T]}}}"#),
    ("AbsolutePath", r#"{"services": {"a": {"volumes": [{"type": "tmpfs", "target": T}]}}}"#),
    ("HostPath", r#"{"services": {"a": {"volumes": [{"type": "bind", "source": T, "target": "/a"}]}}}"#),
    ("Identifier", r#"{"services": {"a": {"volumes": [{"type": "volume", "source": T, "target": "/a"}]}}}"#),
    ("ShortVolume", r#"{"services": {"a": {"volumes": [T]}}}"#),
    ("Device", r#"{"services": {"a": {"devices": [T]}}}"#),
    ("CgroupRule", r#"{"services": {"a": {"device_cgroup_rules": [T]}}}"#),
    ("Expose", r#"{"services": {"a": {"expose": [T]}}}"#),
    ("ShortPort", r#"{"services": {"a": {"ports": [T]}}}"#),
    ("ports Range", r#"{"services": {"a": {"ports": [{"target": 80, "published": T}]}}}"#),
    ("Link", r#"{"services": {"a": {"links": [T]}}}"#),
    ("Link", r#"{"services": {"a": {"external_links": [T]}}}"#),
    ("VolumesFrom", r#"{"services": {"a": {"volumes_from": [T]}}}"#),
    ("MacAddress", r#"{"services": {"a": {"networks": {"n": {"mac_address": T}}}}}"#),
    ("MacAddress", r#"{"services": {"a": {"mac_address": T}}}"#),
    ("ulimit::Resource", r#"{"services": {"a": {"ulimits": {T: 1}}}}"#),
    ("Cache", r#"{"services": {"a": {"build": {"context": ".", "cache_from": [T]}}}}"#),
    ("Cache", r#"{"services": {"a": {"build": {"context": ".", "cache_to": [T]}}}}"#),
    ("SshAuth", r#"{"services": {"a": {"build": {"context": ".", "ssh": [T]}}}}"#),
    ("Image", r#"{"services": {"a": {"build": {"context": ".", "tags": [T]}}}}"#),
    ("Platform", r#"{"services": {"a": {"build": {"context": ".", "platforms": [T]}}}}"#),
    ("build Network", r#"{"services": {"a": {"build": {"context": ".", "network": T}}}}"#),
    ("MapKey", r#"{"services": {"a": {"labels": {T: "x"}}}}"#),
    ("MapKey", r#"{"services": {"a": {"environment": {T: "x"}}}}"#),
    ("MapKey", r#"{"services": {"a": {"sysctls": {T: "x"}}}}"#),
    ("MapKey", r#"{"services": {"a": {"logging": {"options": {T: "x"}}}}}"#),
    ("Duration", r#"{"services": {"a": {"stop_grace_period": T}}}"#),
    ("Duration", r#"{"services": {"a": {"healthcheck": {"test": "x", "interval": T}}}}"#),
    ("Duration", r#"{"services": {"a": {"healthcheck": {"test": ["CMD", "x"], "start_period": T}}}}"#),
    ("Duration", r#"{"services": {"a": {"deploy": {"restart_policy": {"delay": T}}}}}"#),
    ("Duration", r#"{"services": {"a": {"deploy": {"update_config": {"monitor": T}}}}}"#),
    ("ByteValue", r#"{"services": {"a": {"blkio_config": {"device_read_bps": [{"path": "/a", "rate": T}]}}}}"#),
];

pub fn rejected_documents(c: &mut Case) {
    let rows = rows();
    let place = c.index as usize % PLACES.len();
    let (name, template) = PLACES[place];
    let row = rows.iter().find(|r| r.name == name).expect(name);
    let v = texts_for(&mut c.rng.clone(), row, 20);
    c.sample(|| format!("{template}: {:?}", &v[..3]));
    for s in &v {
        if row.name == "CpuSet" && s.split([',', '-']).any(|n| n.trim_start_matches(['0', '+']).len() > 4) {
            continue;
        }
        // "<<" is a merge key wherever a key stands
        if s == "<<" {
            continue;
        }
        let Some(Some(said)) = c.guard(row.name, s, || (row.ask)(s)) else {
            c.event("accepted");
            continue;
        };
        c.seen(&(template, s));
        c.event("rejected");
        let json = template.replacen('T', &serde_json::to_string(s).unwrap(), 1);
        let jv: serde_json::Value = serde_json::from_str(&json).expect(template);
        let yv: serde_yaml::Value = serde_yaml::to_value(&jv).unwrap();
        let mut readers: Vec<(&'static str, Result<compose_spec::Compose, String>)> = vec![
            ("serde_yaml::from_value", serde_yaml::from_value(yv.clone()).map_err(|e| e.to_string())),
            ("serde_json::from_str", serde_json::from_str(&json).map_err(|e| e.to_string())),
            ("serde_json::from_value", serde_json::from_value(jv).map_err(|e| e.to_string())),
        ];
        if matches!(serde_yaml::from_str::<serde_yaml::Value>(&json), Ok(v) if v == yv) {
            readers.push(("Options::from_yaml_str", compose_spec::Compose::options().from_yaml_str(&json).map_err(|e| e.to_string())));
            readers.push(("serde_yaml::from_str", serde_yaml::from_str(&json).map_err(|e| e.to_string())));
        }
        for (reader, got) in readers {
            match got {
                Ok(_) => c.fail(format!("accepted in a document:{place}:{reader}"), format!("{name} {s:?} is rejected alone but accepted in {json}")),
                Err(m) => {
                    c.check(contains_in_order(&m, &said.chain), &format!("cause lost in a document:{place}:{reader}"), || {
                        format!("{name} {s:?}: parsing reports {:?}, reading {json} with {reader} only {m:?}", said.chain)
                    });
                }
            }
        }
    }
}

/// All integers of a message, in order.
fn numbers_in(m: &str) -> Vec<i64> {
    let mut v = Vec::new();
    let mut t = String::new();
    for c in m.chars().chain([' ']) {
        if is_digit(c) || (c == '-' && t.is_empty()) {
            t.push(c);
        } else {
            if let Ok(n) = t.parse() {
                v.push(n);
            }
            t.clear();
        }
    }
    v
}

/// Numbers and values out of range, and what the errors say of them.
pub fn rejected_numbers(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut docs: Vec<(&'static str, i64, String)> = Vec::new();
    // integers with a range
    let n = match r.below(3) {
        0 => r.range(0, 70_000) as i64 - 35_000,
        1 => *r.pick(&[-32768, -1001, -1000, -1, 0, 9, 10, 100, 101, 255, 256, 1000, 1001, 32767, 65535, 65536]) + r.below(5) as i64 - 2,
        _ => r.below(2400) as i64 - 1200,
    };
    c.seen(&n);
    if let Ok(v) = u8::try_from(n) {
        if let Err(e) = Percent::new(v) {
            let m = e.to_string();
            c.event("percent rejected");
            c.check(n > 100 && numbers_in(&m) == [n, 0, 100], "untrue:percent", || format!("Percent::new({n}): {m:?}"));
            docs.push(("cpu_percent", n, m));
        }
    }
    if let Ok(v) = i16::try_from(n) {
        if let Err(e) = OomScoreAdj::new(v) {
            let m = e.to_string();
            c.event("oom score rejected");
            c.check(!(-1000..=1000).contains(&n) && numbers_in(&m) == [n, -1000, 1000], "untrue:oom score", || format!("OomScoreAdj::new({n}): {m:?}"));
            docs.push(("oom_score_adj", n, m));
        }
    }
    if let Ok(v) = u16::try_from(n) {
        if let Err(e) = Weight::new(v) {
            let m = e.to_string();
            c.event("weight rejected");
            c.check(!(10..=1000).contains(&n) && numbers_in(&m) == [10, 1000] && e.source().is_some() == (v == 0), "untrue:weight", || format!("Weight::new({n}): {e:?} {m:?}"));
            docs.push(("blkio_config", n, m));
        }
        let w = r.range(0, 65535) as u16;
        let w = if r.bool() { w } else { v.wrapping_add(r.below(5) as u16).wrapping_sub(2) };
        match Range::new(v, Some(w)) {
            Ok(_) => c.check(v <= w, "untrue:accepted range", || format!("Range::new({v}, {w})")),
            Err(e) => {
                let m = e.to_string();
                c.event("port range rejected");
                c.check(v > w && numbers_in(&m) == [i64::from(v), i64::from(w)], "untrue:port range", || format!("Range::new({v}, {w}): {m:?}"))
            }
        };
    }
    for (key, n, m) in docs {
        let value = if key == "blkio_config" { format!(r#"{{"weight": {n}}}"#) } else { n.to_string() };
        let json = format!(r#"{{"services": {{"a": {{"{key}": {value}}}}}}}"#);
        let jv: serde_json::Value = serde_json::from_str(&json).unwrap();
        for (reader, got) in [
            ("options", compose_spec::Compose::options().from_yaml_str(&json).map_err(|e| e.to_string())),
            ("yaml text", serde_yaml::from_str(&json).map_err(|e| e.to_string())),
            ("yaml value", serde_yaml::from_value(serde_yaml::to_value(&jv).unwrap()).map_err(|e| e.to_string())),
            ("json text", serde_json::from_str(&json).map_err(|e| e.to_string())),
            ("json value", serde_json::from_value(jv.clone()).map_err(|e| e.to_string())),
        ] {
            c.event("documents");
            match got {
                Ok(_) => c.fail(format!("accepted number:{key}"), format!("{reader}: {json}")),
                Err(got) => {
                    c.check(got.contains(&m), &format!("cause lost number:{key}"), || format!("{reader}: {json}: {got:?} does not say {m:?}"));
                }
            }
        }
    }
    // CPU counts
    let f = (match r.below(6) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::from_bits(r.u64()),
        3 => -(r.below(100) as f64),
        4 => f64::MIN_POSITIVE / 4.0,
        _ => r.below(100) as f64 / 8.0,
    }) * if r.chance(1, 4) { -1.0 } else { 1.0 };
    let got = Cpus::new(f);
    c.event("cpus");
    if f.is_finite() && f > 0.0 {
        c.check(matches!(got, Ok(x) if x.into_inner() == f), "untrue:cpus accepted", || format!("Cpus::new({f:?}): {got:?}"));
    } else if f.is_nan() {
        c.check(got.is_err(), "untrue:cpus nan", || format!("Cpus::new({f:?}): {got:?}"));
    } else if f == f64::INFINITY {
        c.check(matches!(got, Err(InvalidCpusError::Infinite)), "untrue:cpus infinite", || format!("Cpus::new({f:?}): {got:?}"));
    } else if f < 0.0 {
        c.check(matches!(got, Err(InvalidCpusError::Negative)), "untrue:cpus negative", || format!("Cpus::new({f:?}): {got:?}"));
    }
    // numbers and values of another kind
    let x = match r.below(4) {
        0 => Number::from(r.u64()),
        1 => Number::from(r.u64() as i64),
        2 => Number::from(n),
        _ => Number::from(f),
    };
    let kind = |e: &TryFromNumberError, fit: bool| match e {
        TryFromNumberError::FloatToInt => matches!(x, Number::Float(_)),
        TryFromNumberError::TryFromInt(_) => !matches!(x, Number::Float(_)) && !fit,
    };
    let as_u = match x {
        Number::UnsignedInt(v) => Some(v),
        Number::SignedInt(v) => u64::try_from(v).ok(),
        Number::Float(_) => None,
    };
    let as_i = match x {
        Number::UnsignedInt(v) => i64::try_from(v).ok(),
        Number::SignedInt(v) => Some(v),
        Number::Float(_) => None,
    };
    let (u, i) = (u64::try_from(x), i64::try_from(x));
    c.event("numbers");
    c.check(u.as_ref().ok().copied() == as_u && u.as_ref().err().map_or(true, |e| kind(e, as_u.is_some())), "untrue:number to u64", || format!("u64::try_from({x:?}): {u:?}"));
    c.check(i.as_ref().ok().copied() == as_i && i.as_ref().err().map_or(true, |e| kind(e, as_i.is_some())), "untrue:number to i64", || format!("i64::try_from({x:?}): {i:?}"));
    let t = gen_scalar_text(&mut r);
    for v in [Value::Number(x), Value::Bool(r.bool()), Value::String(t.clone())] {
        c.event("values");
        let is_bool = matches!(v, Value::Bool(_));
        let b = bool::try_from(v.clone());
        c.check(if is_bool { b.is_ok() } else { matches!(b, Err(TryFromValueError::IntoBool)) }, "untrue:value to bool", || format!("bool::try_from({v:?}): {b:?}"));
        let num = Number::try_from(v.clone());
        for (what, e, direct) in [
            ("u64", u64::try_from(v.clone()).err(), num.as_ref().ok().map(|n| u64::try_from(*n).err().map(TryFromValueError::from))),
            ("i64", i64::try_from(v.clone()).err(), num.as_ref().ok().map(|n| i64::try_from(*n).err().map(TryFromValueError::from))),
            ("f64", f64::try_from(v.clone()).err(), num.as_ref().ok().map(|n| f64::try_from(*n).err().map(TryFromValueError::from))),
        ] {
            let want = match (&num, direct) {
                (Err(e), _) => Some(TryFromValueError::ParseNumber(e.clone())),
                (Ok(_), Some(d)) => d,
                _ => None,
            };
            c.check(e == want, &format!("untrue:value to {what}"), || format!("{what}::try_from({v:?}): {e:?}, expected {want:?}"));
            if let Value::String(s) = &v {
                if let Some(TryFromValueError::ParseNumber(e)) = &e {
                    c.check(number_error(s, e), "untrue:text of a value", || format!("{v:?} as {what}: {e:?}"));
                }
            }
        }
    }
}
