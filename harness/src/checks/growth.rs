//! C31: the work done grows no faster than the document.
//!
//! A document is enlarged sixteen times in one place and every operation is measured at both
//! sizes: what it allocates (exact), and the processor time of its thread (compared only where
//! sixteen times the input took long enough to tell, and measured again before it is believed).
use crate::alloc::measured_total;
use crate::mon::{quiet_catch, Case};
use crate::strs::tcs;
use compose_spec::Compose;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use serde_yaml::{Mapping, Value as V};

const FACTOR: usize = 16;
/// Growth allowed for a factor of 16; doing everything again for every entry gives 256.
const TIME: f64 = 64.0;
const SPACE: u64 = 40;

fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: the pointer is to a valid timespec.
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[derive(Clone, Copy)]
struct Cost {
    time: u64,
    bytes: u64,
    calls: u64,
}
fn cost(f: &dyn Fn()) -> Cost {
    let start = cpu();
    let ((), bytes, calls) = measured_total(f);
    Cost { time: cpu() - start, bytes, calls }
}
fn str_(s: impl Into<String>) -> V {
    V::String(s.into())
}
fn map(n: usize, f: impl Fn(usize) -> (String, V)) -> V {
    V::Mapping((0..n).map(|i| { let (k, v) = f(i); (V::String(k), v) }).collect::<Mapping>())
}
fn list(n: usize, f: impl Fn(usize) -> V) -> V {
    V::Sequence((0..n).map(f).collect())
}
fn one(k: &str, v: V) -> V {
    V::Mapping([(V::from(k), v)].into_iter().collect())
}
fn with(mut v: V, k: &str, w: V) -> V {
    v.as_mapping_mut().unwrap().insert(V::from(k), w);
    v
}
fn top(k: &str, v: V) -> V {
    with(one("services", V::Mapping(Mapping::new())), k, v)
}
fn svc(k: &str, v: V) -> V {
    one("services", one("a", one(k, v)))
}
fn build(k: &str, v: V) -> V {
    svc("build", one(k, v))
}
fn deploy(k: &str, v: V) -> V {
    svc("deploy", one(k, v))
}
fn yaml(s: &str) -> V {
    serde_yaml::from_str(s).unwrap()
}
type Make = (&'static str, fn(usize) -> V);
fn labels(n: usize) -> V {
    map(n, |i| (format!("k{i}"), str_(format!("v{i}"))))
}
fn pairs(n: usize) -> V {
    list(n, |i| str_(format!("k{i}=v{i}")))
}
fn words(n: usize) -> V {
    list(n, |i| str_(format!("w{i}")))
}
fn paths(n: usize) -> V {
    list(n, |i| str_(format!("./p{i}/q")))
}
fn ips(n: usize) -> V {
    list(n, |i| str_(format!("10.{}.{}.{}", i >> 16, i >> 8 & 255, i & 255)))
}
fn exts(n: usize) -> V {
    map(n, |i| (format!("x-{i}"), V::from(i)))
}
/// `n` services of which each has `v`, and the same at the top level under `k`.
fn used(n: usize, k: &str, v: fn(usize) -> V, def: V) -> V {
    let s = map(n, |i| (format!("s{i}"), one(k, v(i))));
    with(one("services", s), k, map(n, |i| (format!("r{i}"), def.clone())))
}
static DOCS: &[Make] = &[
    ("services", |n| one("services", map(n, |i| (format!("s{i}"), one("image", str_(format!("i{i}"))))))),
    ("service networks and networks", |n| used(n, "networks", |i| list(1, |_| str_(format!("r{i}"))), V::Null)),
    ("service volumes and volumes", |n| {
        let s = map(n, |i| (format!("s{i}"), one("volumes", list(2, |j| str_(format!("r{}:/c", i + j))))));
        with(one("services", s), "volumes", map(n + 2, |i| (format!("r{i}"), V::Null)))
    }),
    ("one volume in every service", |n| {
        with(one("services", map(n, |i| (format!("s{i}"), one("volumes", list(1, |_| str_("r:/c")))))), "volumes", one("r", V::Null))
    }),
    ("service configs and configs", |n| used(n, "configs", |i| list(1, |_| str_(format!("r{i}"))), one("file", str_("f")))),
    ("service secrets and secrets", |n| used(n, "secrets", |i| list(1, |_| str_(format!("r{i}"))), one("environment", str_("F")))),
    ("networks external", |n| top("networks", map(n, |i| (format!("n{i}"), yaml("{external: true, name: x}"))))),
    ("networks", |n| top("networks", map(n, |i| (format!("n{i}"), yaml("{driver: bridge, ipam: {config: [{subnet: 10.0.0.0/8}]}}"))))),
    ("network labels", |n| top("networks", one("a", one("labels", labels(n))))),
    ("network label list", |n| top("networks", one("a", one("labels", pairs(n))))),
    ("network driver options", |n| top("networks", one("a", one("driver_opts", labels(n))))),
    ("network extensions", |n| top("networks", one("a", exts(n)))),
    ("ipam configs", |n| top("networks", one("a", one("ipam", one("config", list(n, |i| one("subnet", str_(format!("10.{}.{}.{}/32", i >> 16, i >> 8 & 255, i & 255))))))))),
    ("ipam addresses", |n| top("networks", one("a", one("ipam", one("config", list(1, |_| one("aux_addresses", map(n, |i| (format!("h{i}"), str_(format!("10.{}.{}.{}", i >> 16, i >> 8 & 255, i & 255)))))))))) ),
    ("ipam options", |n| top("networks", one("a", one("ipam", one("options", labels(n)))))),
    ("volume labels", |n| top("volumes", one("a", one("labels", labels(n))))),
    ("volume options", |n| top("volumes", one("a", one("driver_opts", labels(n))))),
    ("secret options", |n| top("secrets", one("a", with(one("file", str_("f")), "driver_opts", labels(n))))),
    ("config content", |n| top("configs", one("a", one("content", str_("line: é\n".repeat(n)))))),
    ("config labels", |n| top("configs", one("a", with(one("file", str_("f")), "labels", pairs(n))))),
    ("include", |n| top("include", paths(n))),
    ("include long", |n| top("include", list(n, |i| with(one("path", paths(2)), "env_file", str_(format!("./e{i}")))))),
    ("include paths", |n| top("include", list(1, |_| one("path", paths(n))))),
    ("extensions", |n| with(exts(n), "services", V::Mapping(Mapping::new()))),
    ("extension list", |n| top("x-a", list(n, |i| V::from(i as f64 / 8.0)))),
    ("extension mapping", |n| top("x-a", map(n, |i| (format!("{i}"), one("b", V::Null))))),
    ("service extensions", |n| one("services", one("a", exts(n)))),
    ("annotations", |n| svc("annotations", labels(n))),
    ("labels", |n| svc("labels", labels(n))),
    ("label list", |n| svc("labels", pairs(n))),
    ("environment", |n| svc("environment", map(n, |i| (format!("K{i}"), if i % 2 == 0 { V::Null } else { V::from(i) })))),
    ("environment list", |n| svc("environment", pairs(n))),
    ("environment keys", |n| svc("environment", words(n))),
    ("environment value", |n| svc("environment", one("A", str_("é=:\"'\\ ".repeat(n))))),
    ("sysctls", |n| svc("sysctls", labels(n))),
    ("sysctls list", |n| svc("sysctls", pairs(n))),
    ("storage options", |n| svc("storage_opt", labels(n))),
    ("logging options", |n| svc("logging", with(one("driver", str_("d")), "options", labels(n)))),
    ("extra hosts", |n| svc("extra_hosts", map(n, |i| (format!("h{i}"), str_(format!("10.{}.{}.{}", i >> 16, i >> 8 & 255, i & 255)))))),
    ("extra hosts list", |n| svc("extra_hosts", list(n, |i| str_(format!("h{i}={}", if i % 2 == 0 { "::1" } else { "10.0.0.1" }))))),
    ("dns", |n| svc("dns", ips(n))),
    ("dns options", |n| svc("dns_opt", words(n))),
    ("dns search", |n| svc("dns_search", words(n))),
    ("tmpfs", |n| svc("tmpfs", list(n, |i| str_(format!("/t{i}"))))),
    ("env files", |n| svc("env_file", paths(n))),
    ("env files long", |n| svc("env_file", list(n, |i| with(one("path", str_(format!("./{i}"))), "required", V::from(i % 2 == 0))))),
    ("links", |n| svc("links", list(n, |i| str_(format!("s{i}:a{i}"))))),
    ("external links", |n| svc("external_links", list(n, |i| str_(format!("s{i}:a{i}"))))),
    ("capabilities", |n| svc("cap_add", words(n))),
    ("capabilities dropped", |n| svc("cap_drop", words(n))),
    ("security options", |n| svc("security_opt", words(n))),
    ("devices", |n| svc("devices", list(n, |i| str_(format!("/dev/a{i}:/dev/b{i}:rwm"))))),
    ("device rules", |n| svc("device_cgroup_rules", list(n, |i| str_(format!("c {}:{} rwm", i / 200, i % 200))))),
    ("groups", |n| svc("group_add", list(n, |i| if i % 2 == 0 { V::from(i) } else { str_(format!("g{i}")) }))),
    ("profiles", |n| svc("profiles", words(n))),
    ("volumes from", |n| svc("volumes_from", list(n, |i| str_(format!("s{i}:ro"))))),
    ("ulimits", |n| svc("ulimits", map(n, |i| (format!("{}{}", (b'a' + (i % 26) as u8) as char, "abcdefghij".chars().cycle().skip(i % 10).take(i / 26 % 9 + 1).collect::<String>() + &letters(i)), if i % 2 == 0 { V::from(i) } else { yaml("{soft: 1, hard: 2}") })))),
    ("depends on", |n| svc("depends_on", words(n))),
    ("depends on long", |n| svc("depends_on", map(n, |i| (format!("s{i}"), one("condition", str_("service_healthy")))))),
    ("service networks", |n| svc("networks", words(n))),
    ("service networks long", |n| svc("networks", map(n, |i| (format!("n{i}"), one("priority", V::from(i)))))),
    ("aliases", |n| svc("networks", one("n", one("aliases", words(n))))),
    ("link-local addresses", |n| svc("networks", one("n", one("link_local_ips", ips(n))))),
    ("network options", |n| svc("networks", one("n", one("driver_opts", labels(n))))),
    ("service configs", |n| svc("configs", words(n))),
    ("service configs long", |n| svc("configs", list(n, |i| with(one("source", str_(format!("c{i}"))), "mode", V::from(i))))),
    ("service secrets long", |n| svc("secrets", list(n, |i| with(one("source", str_(format!("c{i}"))), "uid", str_(format!("{i}")))))),
    ("ports", |n| svc("ports", list(n, |i| str_(format!("{}:{}/udp", i % 60000 + 1, i / 3 + 1))))),
    ("ports on addresses", |n| svc("ports", list(n, |i| str_(format!("10.{}.{}.{}:80:80", i >> 16, i >> 8 & 255, i & 255))))),
    ("ports long", |n| svc("ports", list(n, |i| with(one("target", V::from(i / 2 + 1)), "published", V::from(format!("{}", i % 60000 + 1)))))),
    ("a range of ports", |n| svc("ports", list(1, |_| str_(format!("1-{n}:1-{n}"))))),
    ("expose", |n| svc("expose", list(n, |i| if i % 2 == 0 { V::from(i + 1) } else { str_(format!("{}/udp", i + 1)) }))),
    ("volumes", |n| svc("volumes", list(n, |i| str_(format!("v{i}:/c/{i}:ro"))))),
    ("host volumes", |n| svc("volumes", list(n, |i| str_(format!("./v{i}:/c/{i}:z"))))),
    ("volumes long", |n| svc("volumes", list(n, |i| with(yaml("{type: volume, source: v}"), "target", str_(format!("/c/{i}")))))),
    ("binds long", |n| svc("volumes", list(n, |i| with(yaml("{type: bind, source: ./v, bind: {selinux: z}}"), "target", str_(format!("/c/{i}")))))),
    ("mount extensions", |n| svc("volumes", list(1, |_| with(with(exts(n), "type", str_("tmpfs")), "target", str_("/t"))))),
    ("command", |n| svc("command", words(n))),
    ("command text", |n| svc("command", str_("a b 'c' ".repeat(n)))),
    ("entrypoint", |n| svc("entrypoint", words(n))),
    ("health test", |n| svc("healthcheck", one("test", list(n + 1, |i| if i == 0 { str_("CMD") } else { str_(format!("w{i}")) })))),
    ("healthcheck extensions", |n| svc("healthcheck", exts(n))),
    ("credential extensions", |n| svc("credential_spec", with(exts(n), "file", str_("f")))),
    ("build arguments", |n| build("args", labels(n))),
    ("build argument list", |n| build("args", pairs(n))),
    ("build contexts", |n| build("additional_contexts", map(n, |i| (format!("c{i}"), str_(format!("https://example.com/{i}.git"))))) ),
    ("build context list", |n| build("additional_contexts", list(n, |i| str_(format!("c{i}=./p{i}"))))),
    ("ssh", |n| build("ssh", list(n, |i| str_(format!("i{i}=/p"))))),
    ("cache from", |n| build("cache_from", list(n, |i| str_(format!("type=registry,ref=r{i}"))))),
    ("cache options", |n| build("cache_to", list(1, |_| str_((0..n).fold("type=local".to_owned(), |s, i| s + &format!(",o{i}=v{i}")))))),
    ("build hosts", |n| build("extra_hosts", list(n, |i| str_(format!("h{i}:10.0.0.1"))))),
    ("build labels", |n| build("labels", pairs(n))),
    ("tags", |n| build("tags", list(n, |i| str_(format!("i:t{i}"))))),
    ("platforms", |n| build("platforms", list(n, |i| str_(["linux/amd64", "linux/arm64", "windows/amd64", "linux/arm/v7"][i % 4])))),
    ("build secrets", |n| build("secrets", words(n))),
    ("build extensions", |n| svc("build", exts(n))),
    ("build ulimits", |n| build("ulimits", map(n, |i| (letters(i), V::from(i))))),
    ("dockerfile text", |n| build("dockerfile_inline", str_("RUN a\n".repeat(n)))),
    ("deploy labels", |n| deploy("labels", pairs(n))),
    ("constraints", |n| deploy("placement", one("constraints", words(n)))),
    ("preferences", |n| deploy("placement", one("preferences", list(n, |i| one("spread", str_(format!("s{i}"))))))),
    ("reserved devices", |n| deploy("resources", one("reservations", one("devices", list(n, |i| yaml(&format!("{{capabilities: [gpu], device_ids: ['{i}']}}"))))))),
    ("device ids", |n| deploy("resources", one("reservations", one("devices", list(1, |_| with(yaml("{capabilities: [gpu]}"), "device_ids", words(n))))))),
    ("device capabilities", |n| deploy("resources", one("reservations", one("devices", list(1, |_| one("capabilities", words(n))))))),
    ("device options", |n| deploy("resources", one("reservations", one("devices", list(1, |_| with(yaml("{capabilities: [gpu]}"), "options", labels(n))))))),
    ("block weights", |n| svc("blkio_config", one("weight_device", list(n, |i| with(one("path", str_(format!("/dev/{i}"))), "weight", V::from(i % 990 + 10)))))),
    ("block rates", |n| svc("blkio_config", one("device_read_bps", list(n, |i| with(one("path", str_(format!("/dev/{i}"))), "rate", str_(format!("{i}mb"))))))),
    ("block operations", |n| svc("blkio_config", one("device_write_iops", list(n, |i| with(one("path", str_(format!("/dev/{i}"))), "rate", V::from(i)))))),
    ("watch", |n| svc("develop", one("watch", list(n, |i| yaml(&format!("{{path: ./p{i}, action: rebuild}}")))))),
    ("watch ignore", |n| svc("develop", one("watch", list(1, |_| with(yaml("{path: ., action: rebuild}"), "ignore", words(n)))))),
    ("cpu set", |n| svc("cpuset", str_((0..n).map(|i| format!("{}", i * 2)).collect::<Vec<_>>().join(",")))),
    ("duration", |n| svc("stop_grace_period", str_("1us2ms".repeat(n)))),
    ("image", |n| svc("image", str_("a/".repeat(n) + "b"))),
    ("hostname", |n| svc("hostname", str_("a.".repeat(n) + "b"))),
    ("working directory", |n| svc("working_dir", str_("/a".repeat(n)))),
    ("merging services", |n| one("services", map(n, |i| (format!("s{i}"), with(one("<<", yaml("{image: i, tty: true}")), "init", V::from(i % 2 == 0)))))),
    ("merged mappings", |n| svc("labels", one("<<", list(n, |i| one(&format!("k{i}"), V::from(i)))))),
    ("a large merge", |n| svc("labels", {
        let V::Mapping(m) = with(one("<<", labels(n)), "k0", V::from(1)) else { unreachable!() };
        V::Mapping(m.into_iter().chain((0..n).map(|i| (str_(format!("l{i}")), V::from(i)))).collect())
    })),
    ("merges in extensions", |n| top("x-a", list(n, |_| with(one("<<", yaml("{a: 1, b: 2}")), "b", V::from(3))))),
    ("network mode", |n| svc("network_mode", str_("a:".repeat(n)))),
];
fn letters(mut i: usize) -> String {
    let mut s = String::new();
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}
pub fn places() -> u64 {
    DOCS.len() as u64
}
struct Sized_ {
    v: V,
    text: String,
    json: String,
    t: Compose,
}
fn sized(make: fn(usize) -> V, n: usize) -> Result<Sized_, String> {
    let v = make(n);
    let text = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
    let json = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let t = Compose::options().apply_merge(true).from_yaml_value(v.clone()).map_err(|e| e.to_string())?;
    Ok(Sized_ { v, text, json, t })
}
type Op = (&'static str, fn(&Sized_));
static OPS: &[Op] = &[
    ("read text", |s| drop(serde_yaml::from_str::<Compose>(&s.text))),
    ("read a value", |s| drop(serde_yaml::from_value::<Compose>(s.v.clone()))),
    ("read JSON", |s| drop(serde_json::from_str::<Compose>(&s.json))),
    ("read with merging", |s| drop(Compose::options().apply_merge(true).from_yaml_str(&s.text))),
    ("write a value", |s| drop(serde_yaml::to_value(&s.t))),
    ("write text", |s| drop(serde_yaml::to_string(&s.t))),
    ("write JSON", |s| drop(serde_json::to_string(&s.t))),
    ("copy and compare", |s| assert!(s.t.clone() == s.t)),
    ("validate", |s| drop((s.t.validate_all(), s.t.validate_networks(), s.t.validate_volumes(), s.t.validate_configs(), s.t.validate_secrets()))),
    ("convert", |s| s.t.services.values().for_each(super::links::exercise)),
];
/// What grows too fast takes long: a few findings are enough for a run.
static FOUND: AtomicUsize = AtomicUsize::new(0);
fn enough(c: &mut Case) -> bool {
    let e = FOUND.load(Relaxed) >= 6;
    if e {
        c.event("skipped: enough was found");
    }
    e
}
/// Whether all is well.
fn judge(c: &mut Case, what: &str, op: &str, small: &dyn Fn(), large: &dyn Fn()) -> bool {
    let (mut a, mut b) = (cost(small), cost(large));
    c.event_n("operations measured", 2);
    let grown = |a: u64, b: u64, floor: u64| b > floor && b > a.max(1) * SPACE;
    if grown(a.bytes, b.bytes, 4_000_000) || grown(a.calls, b.calls, 40_000) {
        c.fail(format!("memory:{what}:{op}"), format!("{what}, {op}: {} bytes in {} allocations, for {FACTOR} times the size {} in {}", a.bytes, a.calls, b.bytes, b.calls));
        FOUND.fetch_add(1, Relaxed);
        return false;
    }
    let ratio = |a: Cost, b: Cost| b.time as f64 / a.time.max(20_000) as f64;
    let mut tries = 0;
    let most = if b.time > 1_000_000_000 { 2 } else { 4 };
    while ratio(a, b) > TIME && b.time > 20_000_000 && tries < most {
        // the larger takes less when not disturbed, the smaller is not to be taken too lightly
        let (x, y) = (cost(small), cost(large));
        a.time = a.time.max(x.time);
        b.time = b.time.min(y.time);
        tries += 1;
    }
    let r = ratio(a, b);
    c.event(match r {
        r if r <= 16.0 => "time grew 16-fold at most",
        r if r <= 24.0 => "time grew 24-fold at most",
        r if r <= 32.0 => "time grew 32-fold at most",
        _ => "time grew more or was too short to tell",
    });
    if tries == most && r > TIME {
        c.fail(format!("time:{what}:{op}"), format!("{what}, {op}: {} us, for {FACTOR} times the size {} us", a.time / 1000, b.time / 1000));
        FOUND.fetch_add(1, Relaxed);
        return false;
    }
    true
}
pub fn documents(c: &mut Case) {
    let i = c.index as usize;
    if enough(c) {
        return;
    }
    let (what, make) = DOCS[i % DOCS.len()];
    // a power of two is where collections grow
    let n = c.rng.range(600, 1000) as usize * if i >= DOCS.len() { 4 } else { 1 };
    let n = match what {
        "platforms" => 4,
        "a range of ports" | "cpu set" => n.min(4000),
        "expose" => n.min(4000),
        _ => n,
    };
    c.seen(&(what, n));
    c.sample(|| format!("{what}: {n} and {}", n * FACTOR));
    let made = quiet_catch(|| (sized(make, n), sized(make, n * FACTOR)));
    let (small, large) = match made {
        Ok((Ok(a), Ok(b))) => (a, b),
        Ok((Err(e), _)) | Ok((_, Err(e))) => return c.fail(format!("rejected:{what}"), format!("{what}: {e}")),
        Err(p) => return c.fail(format!("panic:{what}"), format!("{what}: {p}")),
    };
    for (op, f) in OPS {
        if !judge(c, what, op, &|| f(&small), &|| f(&large)) {
            break;
        }
    }
}
pub fn texts(c: &mut Case) {
    let all = tcs();
    let t = &*all[c.index as usize % all.len()];
    let mut r = c.rng.clone();
    for _ in 0..3 {
        // a part of an allowed text over and over
        let s = t.gen(&mut r);
        let cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
        let (a, b) = (a.min(b), a.max(b));
        let long = |n: usize| s[..b].to_owned() + &s[a..b].repeat(n / (b - a).max(1)) + &s[b..];
        let (x, y) = (long(8_000), long(8_000 * FACTOR));
        if a == b || t.skip(&y) || t.name() == "CpuSet" {
            c.event("skipped: nothing to repeat");
            continue;
        }
        c.seen(&(t.name(), &s, a, b));
        c.sample(|| format!("{}: {s:?} with {:?} over and over", t.name(), &s[a..b]));
        c.event(if t.ins(&x).iter().any(|i| i.1) { "accepted texts" } else { "rejected texts" });
        if enough(c) {
            return;
        }
        judge(c, t.name(), "parse", &|| drop(t.ins(&x)), &|| drop(t.ins(&y)));
        judge(c, t.name(), "display", &|| drop(t.display(&x, None)), &|| drop(t.display(&y, None)));
    }
}

// ---- the same properties with many entries ----------------------------------------------------
//
// Whatever holds of a document with a few entries in a place holds of one with any number: the
// sizes are around those where a counter of 8 or 16 bits would start again.
fn sizes(c: &mut Case) -> usize {
    let k = c.index as usize / DOCS.len();
    match k {
        0 => 257,
        _ if k % 6 == 5 => c.rng.range(65_530, 65_540) as usize,
        _ => {
            let base = *c.rng.pick(&[128, 256, 512, 1024, 2048]);
            (base + c.rng.range(0, 6) as usize).saturating_sub(3)
        }
    }
}
fn limit(what: &str, n: usize) -> usize {
    match what {
        "platforms" => 4,
        "a range of ports" | "cpu set" | "expose" => n.min(4000),
        _ => n,
    }
}
fn merges(what: &str) -> bool {
    what.contains("merg")
}
fn read(what: &str, v: &V) -> Result<Compose, String> {
    let r = if merges(what) {
        Compose::options().apply_merge(true).from_yaml_value(v.clone())
    } else {
        serde_yaml::from_value(v.clone())
    };
    r.map_err(|e| e.to_string())
}
fn leaves(v: &V) -> usize {
    match v {
        V::Mapping(m) => m.iter().map(|(k, v)| leaves(k) + leaves(v)).sum(),
        V::Sequence(s) => s.iter().map(leaves).sum(),
        _ => 1,
    }
}
/// What `holds` says of a few entries, it must say of many: a text tells what is wrong.
fn many(c: &mut Case, holds: fn(&str, &V) -> Result<(), String>) {
    let (what, make) = DOCS[c.index as usize % DOCS.len()];
    let n = limit(what, sizes(c));
    if [4, 6].iter().any(|n| quiet_catch(|| holds(what, &make(*n))).map_or(true, |r| r.is_err())) {
        // for another stage to judge, or not claimed of this place
        c.event("skipped: not of a few entries either");
        return;
    }
    c.seen(&(what, n));
    c.event_n("entries", n as u64);
    c.sample(|| format!("{what}: {n} entries"));
    match quiet_catch(|| holds(what, &make(n))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => c.fail(format!("many:{what}"), format!("{what}, {n} entries (and not a few): {}", e.chars().take(400).collect::<String>())),
    }
}
/// Every operation on a document of many entries (only panics are judged).
pub fn many_operations(c: &mut Case) {
    let (what, make) = *c.rng.pick(DOCS);
    let n = match c.rng.below(80) {
        0 => c.rng.range(65_530, 65_540),
        _ => *c.rng.pick(&[127u64, 128, 255, 256, 257, 511, 512, 1024]) + c.rng.range(0, 1),
    };
    if let Ok(s) = sized(make, limit(what, n as usize)) {
        c.seen(&(what, n));
        OPS.iter().for_each(|o| o.1(&s));
    }
}
pub fn many_same(c: &mut Case) {
    many(c, |what, v| {
        let t = read(what, v)?;
        let (value, text, json) = (serde_yaml::to_value(&t), serde_yaml::to_string(&t), serde_json::to_string(&t));
        let (value, text, json) = (value.map_err(|e| e.to_string())?, text.map_err(|e| e.to_string())?, json.map_err(|e| e.to_string())?);
        let again: [(&str, Result<Compose, String>); 3] = [
            ("value", serde_yaml::from_value(value.clone()).map_err(|e| e.to_string())),
            ("text", serde_yaml::from_str(&text).map_err(|e| e.to_string())),
            ("JSON", serde_json::from_str(&json).map_err(|e| e.to_string())),
        ];
        for (way, u) in again {
            let u = u.map_err(|e| format!("what was written ({way}) is rejected: {e}"))?;
            if u != t {
                return Err(format!("what was written ({way}) is read as another value"));
            }
            if serde_yaml::to_string(&u).ok().as_ref() != Some(&text) {
                return Err(format!("what was written ({way}) is written otherwise when read"));
            }
        }
        Ok(())
    });
}
pub fn many_kept(c: &mut Case) {
    // a place where everything comes back as it was
    many(c, |what, v| {
        let t = read(what, v)?;
        let out = serde_yaml::to_string(&t).map_err(|e| e.to_string())?;
        let text = serde_yaml::to_string(v).map_err(|e| e.to_string())?;
        if out == text {
            return Ok(());
        }
        let line = out.lines().zip(text.lines()).find(|l| l.0 != l.1);
        Err(format!("{} lines of {} come back, the first other one {line:?}", out.lines().count(), text.lines().count()))
    });
    // elsewhere there are as many values as for a few entries
    let (what, make) = DOCS[c.index as usize % DOCS.len()];
    if what == "platforms" {
        return;
    }
    let n = limit(what, sizes(c)) / 12 * 12;
    let count = |n: usize| -> Option<usize> {
        let v = make(n);
        quiet_catch(|| read(what, &v).ok().and_then(|t| serde_yaml::to_value(t).ok()).map(|v| leaves(&v))).ok().flatten()
    };
    let (a, b, e, got) = (count(12), count(24), count(36), count(n));
    if let (Some(a), Some(b), Some(e)) = (a, b, e) {
        if b >= a && b - a == e.wrapping_sub(b) {
            let want = a + (b - a) * (n / 12 - 1);
            c.event("places counted");
            c.check(got == Some(want), &format!("many count:{what}"), || format!("{what}, {n} entries: {got:?} values come back, {want} expected"));
        }
    }
}
pub fn many_readers(c: &mut Case) {
    many(c, |what, v| {
        let t = read(what, v)?;
        let text = serde_yaml::to_string(v).map_err(|e| e.to_string())?;
        let json = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let mut o = Compose::options();
        o.apply_merge(true);
        let e = |e: serde_yaml::Error| e.to_string();
        let mut ways: Vec<(&str, Result<Compose, String>)> = vec![
            ("text with merging", o.from_yaml_str(&text).map_err(e)),
            ("bytes with merging", o.from_yaml_slice(text.as_bytes()).map_err(e)),
            ("a stream with merging", o.from_yaml_reader(text.as_bytes()).map_err(e)),
            ("JSON text with merging", o.from_yaml_str(&json).map_err(e)),
        ];
        if !merges(what) {
            ways.push(("text", serde_yaml::from_str(&text).map_err(e)));
            ways.push(("bytes", serde_yaml::from_slice(text.as_bytes()).map_err(e)));
            ways.push(("a stream", serde_yaml::from_reader(text.as_bytes()).map_err(e)));
            ways.push(("a value with merging", o.from_yaml_value(v.clone()).map_err(e)));
            ways.push(("JSON", serde_json::from_str(&json).map_err(|e| e.to_string())));
            ways.push(("a JSON stream", serde_json::from_reader(json.as_bytes()).map_err(|e| e.to_string())));
        }
        for (way, u) in ways {
            match u {
                Ok(u) if u == t => {}
                Ok(_) => return Err(format!("{way} is read as another value")),
                Err(e) => return Err(format!("{way} is rejected: {e}")),
            }
        }
        Ok(())
    });
}
fn reversed(v: &V) -> V {
    match v {
        V::Mapping(m) => {
            let mut l: Vec<(V, V)> = m.iter().map(|(k, v)| (k.clone(), reversed(v))).collect();
            l.reverse();
            V::Mapping(l.into_iter().collect())
        }
        V::Sequence(s) => V::Sequence(s.iter().map(reversed).collect()),
        v => v.clone(),
    }
}
pub fn many_keys(c: &mut Case) {
    many(c, |what, v| {
        let (t, u) = (read(what, v)?, read(what, &reversed(v))?);
        let (a, b) = (serde_yaml::to_value(t).map_err(|e| e.to_string())?, serde_yaml::to_value(u).map_err(|e| e.to_string())?);
        if a == b {
            Ok(())
        } else {
            Err("the keys in the opposite order mean something else".into())
        }
    });
}
/// Many services that use a resource, or as many resources, with one left undefined.
pub fn many_references(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = match r.below(if c.index >= 600 { 40 } else { 8 }) {
        0..=2 => *r.pick(&[255usize, 256, 257, 258, 512, 513]),
        39 => r.range(65_534, 65_538) as usize,
        _ => r.range(2, 1200) as usize,
    };
    let (kind, def): (&str, V) = {
        let k = *r.pick(&["network", "volume", "config", "secret"]);
        (k, if matches!(k, "config" | "secret") { one("file", str_("f")) } else { V::Null })
    };
    let shared = r.bool();
    let field = format!("{kind}s");
    let item = |k: usize| {
        if kind == "volume" {
            str_(format!("r{k}:/c{k}"))
        } else {
            str_(format!("r{k}"))
        }
    };
    // shared: every service uses r0; otherwise service i uses its own, and a volume the next one's
    let services = map(n, |i| {
        let l = match (shared, kind) {
            (true, _) => vec![item(0)],
            (_, "volume") => vec![item(i), item(i + 1)],
            _ => vec![item(i)],
        };
        (format!("s{i}"), one(&field, V::Sequence(l)))
    });
    let count = if shared { 1 } else { n + usize::from(kind == "volume") };
    let left = r.bool().then(|| r.below(count));
    let defined: Mapping = (0..count).filter(|k| Some(*k) != left).map(|k| (str_(format!("r{k}")), def.clone())).collect();
    let v = with(one("services", services), &field, V::Mapping(defined));
    let t: Compose = match serde_yaml::from_value(v) {
        Ok(t) => t,
        Err(e) => return c.fail("many:rejected", format!("{n} services using {field}: {e}")),
    };
    c.seen(&(kind, n, shared, left));
    c.event_n("references", n as u64);
    c.sample(|| format!("{n} services, {kind}s {}, without {left:?}", if shared { "shared" } else { "of their own" }));
    let want = left.and_then(|k| match kind {
        // at either end it is used once only
        "volume" if !shared && (k == 0 || k == n) => None,
        "volume" => Some(format!("volume `r{k}` is used across multiple services and is not defined in the top-level `volumes` field")),
        _ => Some(format!("{kind} `r{k}` (used in the `s{}` service) is not defined in the top-level `{field}` field", if shared { 0 } else { k })),
    });
    let own = match kind {
        "network" => t.validate_networks(),
        "volume" => t.validate_volumes(),
        "config" => t.validate_configs(),
        _ => t.validate_secrets(),
    };
    for (which, got) in [("all", t.validate_all()), ("its own kind", own)] {
        let got = got.err().map(|e| e.to_string());
        c.event(if got.is_some() { "reported" } else { "nothing to report" });
        // the shared one may be said to be used by any of its services
        let same = match (&got, &want) {
            (Some(g), Some(w)) if shared && kind != "volume" => g.starts_with(&format!("{kind} `r0` (used in the `s")) && g.ends_with(w.rsplit(')').next().unwrap()),
            _ => got == want,
        };
        c.check(same, &format!("many:{kind}"), || format!("{n} services, validating {which}: {got:?}, expected {want:?}"));
    }
}
