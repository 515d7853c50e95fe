//! The structured public types behind one dynamic interface, with a writer for each public field.
use crate::docs::{self as d, Gen, S};
use compose_spec::service::{
    blkio_config as b, build as bu, deploy as de, deploy::resources as re, develop as dv, env_file as ef,
    healthcheck as hc, network_config as nc, ports, volumes::mount as m,
};
use compose_spec::{config, network, secret, service, Compose, ExtensionKey, Include, Resource, Service};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value as V;
use std::any::Any;
use std::fmt::Debug;
use std::io::Read;

pub trait Dv: Any {
    fn eq_dyn(&self, o: &dyn Dv) -> bool;
    fn dbg(&self) -> String;
    fn value(&self) -> Result<V, String>;
    fn yaml(&self) -> Result<String, String>;
    fn json(&self) -> Result<String, String>;
    /// Through the data format of `written`.
    fn write(&self, log: &crate::written::Log) -> Result<V, String>;
    fn yaml_to(&self, w: &mut dyn std::io::Write) -> Result<(), String>;
    fn json_to(&self, w: &mut dyn std::io::Write) -> Result<(), String>;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn dup(&self) -> B;
}
pub type B = Box<dyn Dv>;
impl<T: PartialEq + Debug + Clone + Serialize + 'static> Dv for T {
    fn eq_dyn(&self, o: &dyn Dv) -> bool {
        o.any().downcast_ref::<T>().is_some_and(|o| self == o)
    }
    fn dbg(&self) -> String {
        format!("{self:?}")
    }
    fn value(&self) -> Result<V, String> {
        serde_yaml::to_value(self).map_err(|e| e.to_string())
    }
    fn yaml(&self) -> Result<String, String> {
        serde_yaml::to_string(self).map_err(|e| e.to_string())
    }
    fn json(&self) -> Result<String, String> {
        serde_json::to_string(self).map_err(|e| e.to_string())
    }
    fn write(&self, log: &crate::written::Log) -> Result<V, String> {
        crate::written::write(self, log).map_err(|e| e.to_string())
    }
    fn yaml_to(&self, w: &mut dyn std::io::Write) -> Result<(), String> {
        serde_yaml::to_writer(w, self).map_err(|e| e.to_string())
    }
    fn json_to(&self, w: &mut dyn std::io::Write) -> Result<(), String> {
        serde_json::to_writer(w, self).map_err(|e| e.to_string())
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn dup(&self) -> B {
        Box::new(self.clone())
    }
}
/// A reader that returns a few bytes at a time.
pub struct Trickle<'a>(pub &'a [u8], pub usize);
impl Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(buf.len()).min(self.1.max(1));
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
pub type Setter = fn(&mut dyn Any, V) -> Result<(), String>;
pub struct Ty {
    pub name: &'static str,
    pub gen: Gen,
    pub spec: &'static S,
    pub from_value: fn(V) -> Result<B, String>,
    pub from_str: fn(&str) -> Result<B, String>,
    pub from_slice: fn(&[u8]) -> Result<B, String>,
    pub from_reader: fn(&[u8], usize) -> Result<B, String>,
    pub from_json: fn(&str) -> Result<B, String>,
    pub from_json_slice: fn(&[u8]) -> Result<B, String>,
    pub from_json_reader: fn(&[u8], usize) -> Result<B, String>,
    pub from_json_value: fn(serde_json::Value) -> Result<B, String>,
    /// Through the data format of `driven`.
    pub from_driven: fn(&V, &mut crate::rng::Rng) -> Result<B, String>,
    /// The same with a failure at a step, and the steps that were left to it.
    pub from_failing: fn(&V, &mut crate::rng::Rng, u64) -> (Result<B, String>, u64),
    pub from_yaml_read: fn(&mut dyn Read) -> Result<B, String>,
    pub from_json_read: fn(&mut dyn Read) -> Result<B, String>,
    pub default: Option<fn() -> B>,
    pub empty: Option<fn(&dyn Any) -> bool>,
    /// Writes the public field a key belongs to; the key `x-` writes extensions.
    pub set: &'static [(&'static str, Setter)],
}
fn boxed<T: Dv, E: ToString>(r: Result<T, E>) -> Result<B, String> {
    match r {
        Ok(v) => Ok(Box::new(v)),
        Err(e) => Err(e.to_string()),
    }
}
fn y<T: DeserializeOwned>(v: V) -> Result<T, String> {
    serde_yaml::from_value(v).map_err(|e| e.to_string())
}
fn text(v: &V) -> Result<&str, String> {
    v.as_str().ok_or_else(|| format!("text expected: {v:?}"))
}
fn dur(v: &V) -> Result<std::time::Duration, String> {
    compose_spec::duration::parse(text(v)?).map_err(|e| e.to_string())
}
fn micros(v: &V) -> Result<std::time::Duration, String> {
    v.as_u64().map(std::time::Duration::from_micros).ok_or_else(|| format!("integer expected: {v:?}"))
}
fn num_text(v: &V) -> Result<u32, String> {
    text(v)?.parse().map_err(|e: std::num::ParseIntError| e.to_string())
}
fn key(v: &str) -> Result<ExtensionKey, String> {
    ExtensionKey::new(v).map_err(|e| e.to_string())
}

macro_rules! how {
    ($v:ident [plain]) => { y($v)? };
    ($v:ident [dur]) => { Some(dur(&$v)?) };
    ($v:ident [us]) => { Some(micros(&$v)?) };
    ($v:ident [num]) => { Some(num_text(&$v)?) };
    ($v:ident [some $f:expr]) => { Some($f(y($v)?)) };
    ($v:ident [wrap $f:expr]) => { $f(y($v)?) };
}
macro_rules! sets {
    // flatten the groups: every key with its own way
    (@acc [$($done:tt)*] $t:ty; $how:tt { $k:literal => $f:ident $(, $($rest:tt)*)? } $($more:tt)*) => {
        sets!(@acc [$($done)* ($how $k $f)] $t; $how { $($($rest)*)? } $($more)*)
    };
    (@acc [$($done:tt)*] $t:ty; $how:tt { } $($more:tt)*) => { sets!(@acc [$($done)*] $t; $($more)*) };
    (@acc [$(($how:tt $k:literal $f:ident))*] $t:ty; ; $ext:ident) => {
        &[
            $(($k, |a, v| {
                let t = a.downcast_mut::<$t>().ok_or("type")?;
                t.$f = how!(v $how);
                Ok(())
            }),)*
            sets!(@ext $t; $ext),
        ]
    };
    (@ext $t:ty; none) => { ("", |_, _| Err(String::new())) };
    (@ext $t:ty; $ext:ident) => {
        ("x-", |a, v| {
            let t = a.downcast_mut::<$t>().ok_or("type")?;
            if let V::Mapping(m) = v {
                for (k, v) in m {
                    t.$ext.insert(key(text(&k)?)?, v);
                }
            }
            Ok(())
        })
    };
    ($t:ty; $($more:tt)*) => { sets!(@acc [] $t; $($more)*) };
}
macro_rules! ty {
    ($name:literal, $t:ty, $gen:path, $spec:path, [$($opt:ident),*], $set:expr) => {
        Ty {
            name: $name,
            gen: $gen,
            spec: &$spec,
            from_value: |v| boxed(serde_yaml::from_value::<$t>(v)),
            from_str: |v| boxed(serde_yaml::from_str::<$t>(v)),
            from_slice: |v| boxed(serde_yaml::from_slice::<$t>(v)),
            from_reader: |v, n| boxed(serde_yaml::from_reader::<_, $t>(Trickle(v, n))),
            from_json: |v| boxed(serde_json::from_str::<$t>(v)),
            from_json_slice: |v| boxed(serde_json::from_slice::<$t>(v)),
            from_json_reader: |v, n| boxed(serde_json::from_reader::<_, $t>(Trickle(v, n))),
            from_json_value: |v| boxed(serde_json::from_value::<$t>(v)),
            from_driven: |v, r| boxed(crate::driven::from_driven::<$t>(v, r)),
            from_failing: |v, r, n| {
                let (t, left) = crate::driven::from_failing::<$t>(v, r, n);
                (boxed(t), left)
            },
            from_yaml_read: |r| boxed(serde_yaml::from_reader::<_, $t>(r)),
            from_json_read: |r| boxed(serde_json::from_reader::<_, $t>(r)),
            default: ty!(@d $t, $($opt)*),
            empty: ty!(@e $t, $($opt)*),
            set: $set,
        }
    };
    (@d $t:ty, D $($o:ident)*) => { Some(|| Box::new(<$t>::default())) };
    (@d $t:ty, E $($o:ident)*) => { None };
    (@d $t:ty, ) => { None };
    (@e $t:ty, D E) => { ty!(@e $t, E) };
    (@e $t:ty, E) => { Some(|a| a.downcast_ref::<$t>().expect("type").is_empty()) };
    (@e $t:ty, D) => { None };
    (@e $t:ty, ) => { None };
}

fn mount_common(a: &mut dyn Any) -> Result<&mut m::Common, String> {
    Ok(match a.downcast_mut::<m::Mount>().ok_or("type")? {
        m::Mount::Volume(x) => &mut x.common,
        m::Mount::Bind(x) => &mut x.common,
        m::Mount::Tmpfs(x) => &mut x.common,
        m::Mount::NamedPipe(x) => &mut x.common,
        m::Mount::Cluster(x) => &mut x.common,
    })
}
const MOUNT_SETS: &[(&str, Setter)] = &[
    ("target", |a, v| { mount_common(a)?.target = y(v)?; Ok(()) }),
    ("read_only", |a, v| { mount_common(a)?.read_only = y(v)?; Ok(()) }),
    ("consistency", |a, v| { mount_common(a)?.consistency = y(v)?; Ok(()) }),
    ("source", |a, v| {
        match a.downcast_mut::<m::Mount>().ok_or("type")? {
            m::Mount::Volume(x) => x.source = y(v)?,
            m::Mount::Bind(x) => x.source = y(v)?,
            m::Mount::Tmpfs(_) => return Err("source of tmpfs".into()),
            m::Mount::NamedPipe(x) => x.source = y(v)?,
            m::Mount::Cluster(x) => x.source = y(v)?,
        }
        Ok(())
    }),
    ("volume", |a, v| match a.downcast_mut::<m::Mount>().ok_or("type")? {
        m::Mount::Volume(x) => { x.volume = y(v)?; Ok(()) }
        _ => Err("volume".into()),
    }),
    ("bind", |a, v| match a.downcast_mut::<m::Mount>().ok_or("type")? {
        m::Mount::Bind(x) => { x.bind = y(v)?; Ok(()) }
        _ => Err("bind".into()),
    }),
    ("tmpfs", |a, v| match a.downcast_mut::<m::Mount>().ok_or("type")? {
        m::Mount::Tmpfs(x) => { x.tmpfs = y(v)?; Ok(()) }
        _ => Err("tmpfs".into()),
    }),
    ("x-", |a, v| {
        let c = mount_common(a)?;
        if let V::Mapping(m) = v {
            for (k, v) in m {
                c.extensions.insert(key(text(&k)?)?, v);
            }
        }
        Ok(())
    }),
];
fn health(a: &mut dyn Any) -> Result<&mut hc::Command, String> {
    match a.downcast_mut::<hc::Healthcheck>().ok_or("type")? {
        hc::Healthcheck::Command(c) => Ok(c),
        hc::Healthcheck::Disable => Err("disabled".into()),
    }
}
fn health_test(v: &V) -> Result<hc::Test, String> {
    match v {
        V::String(s) => Ok(hc::Test::ShellCommand(s.clone())),
        V::Sequence(x) => {
            let all: Vec<String> = x.iter().map(|x| text(x).map(str::to_owned)).collect::<Result<_, _>>()?;
            Ok(hc::Test::Command(all[1..].to_vec()))
        }
        _ => Err("test".into()),
    }
}
const HEALTH_SETS: &[(&str, Setter)] = &[
    ("test", |a, v| { health(a)?.test = Some(health_test(&v)?); Ok(()) }),
    ("interval", |a, v| { health(a)?.interval = Some(dur(&v)?); Ok(()) }),
    ("timeout", |a, v| { health(a)?.timeout = Some(dur(&v)?); Ok(()) }),
    ("retries", |a, v| { health(a)?.retries = y(v)?; Ok(()) }),
    ("start_period", |a, v| { health(a)?.start_period = Some(dur(&v)?); Ok(()) }),
    ("start_interval", |a, v| { health(a)?.start_interval = Some(dur(&v)?); Ok(()) }),
    ("x-", |a, v| {
        let c = health(a)?;
        if let V::Mapping(m) = v {
            for (k, v) in m {
                c.extensions.insert(key(text(&k)?)?, v);
            }
        }
        Ok(())
    }),
];
macro_rules! res_set {
    ($t:ty; $($k:literal => $f:ident $how:tt),* ) => {
        &[$(($k, |a, v| match a.downcast_mut::<Resource<$t>>().ok_or("type")? {
            Resource::Compose(t) => { t.$f = how!(v $how); Ok(()) }
            Resource::External { .. } => Err("external".into()),
        }),)*
        ("x-", |a, v| match a.downcast_mut::<Resource<$t>>().ok_or("type")? {
            Resource::Compose(t) => {
                if let V::Mapping(m) = v {
                    for (k, v) in m {
                        t.extensions.insert(key(text(&k)?)?, v);
                    }
                }
                Ok(())
            }
            Resource::External { .. } => Err("external".into()),
        })]
    };
}

macro_rules! part_sets {
    ($t:ty; $($f:ident),*) => {
        &[
            $((stringify!($f), |a, v| { a.downcast_mut::<$t>().ok_or("type")?.$f = y(v)?; Ok(()) }),)*
            ("target", |a, v| { a.downcast_mut::<$t>().ok_or("type")?.common.target = y(v)?; Ok(()) }),
            ("read_only", |a, v| { a.downcast_mut::<$t>().ok_or("type")?.common.read_only = y(v)?; Ok(()) }),
            ("consistency", |a, v| { a.downcast_mut::<$t>().ok_or("type")?.common.consistency = y(v)?; Ok(()) }),
            ("x-", |a, v| {
                let t = a.downcast_mut::<$t>().ok_or("type")?;
                if let V::Mapping(m) = v {
                    for (k, v) in m {
                        t.common.extensions.insert(key(text(&k)?)?, v);
                    }
                }
                Ok(())
            }),
        ]
    };
}
const MOUNT: Ty = ty!("mount", m::Mount, d::mount, d::MOUNT_VOLUME, [], MOUNT_SETS);
pub static TYPES: &[Ty] = &[
    ty!("compose", Compose, d::compose, d::COMPOSE, [D], sets! { Compose;
        [plain] { "version" => version, "name" => name, "include" => include, "services" => services, "networks" => networks,
            "volumes" => volumes, "configs" => configs, "secrets" => secrets }; extensions }),
    ty!("service", Service, d::service, d::SERVICE, [D], sets! { Service;
        [plain] { "attach" => attach, "build" => build, "blkio_config" => blkio_config, "cpu_count" => cpu_count,
            "cpu_percent" => cpu_percent, "cpu_shares" => cpu_shares, "cpus" => cpus, "cpuset" => cpuset, "cap_add" => cap_add,
            "cap_drop" => cap_drop, "cgroup" => cgroup, "cgroup_parent" => cgroup_parent, "command" => command,
            "configs" => configs, "container_name" => container_name, "credential_spec" => credential_spec,
            "depends_on" => depends_on, "deploy" => deploy, "develop" => develop, "device_cgroup_rules" => device_cgroup_rules,
            "devices" => devices, "dns" => dns, "dns_opt" => dns_opt, "dns_search" => dns_search, "domainname" => domain_name,
            "entrypoint" => entrypoint, "env_file" => env_file, "environment" => environment, "expose" => expose,
            "extends" => extends, "annotations" => annotations, "external_links" => external_links, "extra_hosts" => extra_hosts,
            "group_add" => group_add, "healthcheck" => healthcheck, "hostname" => hostname, "image" => image, "init" => init,
            "ipc" => ipc, "uts" => uts, "isolation" => isolation, "labels" => labels, "links" => links, "logging" => logging,
            "mac_address" => mac_address, "mem_limit" => mem_limit, "mem_reservation" => mem_reservation,
            "mem_swappiness" => mem_swappiness, "memswap_limit" => memswap_limit, "oom_kill_disable" => oom_kill_disable,
            "oom_score_adj" => oom_score_adj, "pid" => pid, "pids_limit" => pids_limit, "platform" => platform, "ports" => ports,
            "privileged" => privileged, "profiles" => profiles, "pull_policy" => pull_policy, "read_only" => read_only,
            "restart" => restart, "runtime" => runtime, "scale" => scale, "secrets" => secrets, "security_opt" => security_opt,
            "shm_size" => shm_size, "stdin_open" => stdin_open, "stop_signal" => stop_signal, "storage_opt" => storage_opt,
            "sysctls" => sysctls, "tmpfs" => tmpfs, "tty" => tty, "ulimits" => ulimits, "user" => user,
            "userns_mode" => userns_mode, "volumes" => volumes, "volumes_from" => volumes_from, "working_dir" => working_dir }
        [us] { "cpu_period" => cpu_period, "cpu_quota" => cpu_quota }
        [dur] { "cpu_rt_runtime" => cpu_rt_runtime, "cpu_rt_period" => cpu_rt_period, "stop_grace_period" => stop_grace_period }
        [some nc::NetworkConfig::NetworkMode] { "network_mode" => network_config }
        [some nc::NetworkConfig::Networks] { "networks" => network_config };
        extensions }),
    ty!("include", Include, d::include_long, d::INCLUDE, [], sets! { Include;
        [plain] { "path" => path, "project_directory" => project_directory, "env_file" => env_file }; none }),
    ty!("blkio_config", b::BlkioConfig, d::blkio, d::BLKIO, [D, E], sets! { b::BlkioConfig;
        [plain] { "device_read_bps" => device_read_bps, "device_read_iops" => device_read_iops, "device_write_bps" => device_write_bps,
            "device_write_iops" => device_write_iops, "weight" => weight, "weight_device" => weight_device }; none }),
    ty!("bps_limit", b::BpsLimit, d::bps, d::BPS, [], sets! { b::BpsLimit; [plain] { "path" => path, "rate" => rate }; none }),
    ty!("iops_limit", b::IopsLimit, d::iops, d::IOPS, [], sets! { b::IopsLimit; [plain] { "path" => path, "rate" => rate }; none }),
    ty!("weight_device", b::WeightDevice, d::weight_device, d::WEIGHT_DEVICE, [], sets! { b::WeightDevice;
        [plain] { "path" => path, "weight" => weight }; none }),
    ty!("dependency", service::Dependency, d::dependency, d::DEPENDENCY, [], sets! { service::Dependency;
        [plain] { "condition" => condition, "restart" => restart, "required" => required }; none }),
    ty!("extends", service::Extends, d::extends, d::EXTENDS, [], sets! { service::Extends;
        [plain] { "service" => service, "file" => file }; none }),
    ty!("logging", service::Logging, d::logging, d::LOGGING, [D, E], sets! { service::Logging;
        [plain] { "driver" => driver, "options" => options }; extensions }),
    ty!("network_config", nc::NetworkConfig, d::network_config, d::NETWORK_CONFIG, [], &[
        ("network_mode", |a, v| { *a.downcast_mut::<nc::NetworkConfig>().ok_or("type")? = nc::NetworkConfig::NetworkMode(y(v)?); Ok(()) }),
        ("networks", |a, v| { *a.downcast_mut::<nc::NetworkConfig>().ok_or("type")? = nc::NetworkConfig::Networks(y(v)?); Ok(()) }),
    ]),
    ty!("dockerfile", bu::Dockerfile, d::dockerfile, d::DOCKERFILE, [], &[
        ("dockerfile", |a, v| { *a.downcast_mut::<bu::Dockerfile>().ok_or("type")? = bu::Dockerfile::File(y(v)?); Ok(()) }),
        ("dockerfile_inline", |a, v| { *a.downcast_mut::<bu::Dockerfile>().ok_or("type")? = bu::Dockerfile::Inline(y(v)?); Ok(()) }),
    ]),
    ty!("credential_spec", service::CredentialSpec, d::credential_spec, d::CREDENTIAL, [], sets! { service::CredentialSpec;
        [wrap service::CredentialSpecKind::Config] { "config" => kind } [wrap service::CredentialSpecKind::File] { "file" => kind } [wrap service::CredentialSpecKind::Registry] { "registry" => kind };
        extensions }),
    ty!("build", bu::Build, d::build_long, d::BUILD, [D, E], sets! { bu::Build;
        [plain] { "context" => context, "args" => args, "ssh" => ssh, "cache_from" => cache_from, "cache_to" => cache_to,
            "additional_contexts" => additional_contexts, "entitlements" => entitlements, "extra_hosts" => extra_hosts,
            "isolation" => isolation, "privileged" => privileged, "labels" => labels, "no_cache" => no_cache, "pull" => pull,
            "network" => network, "shm_size" => shm_size, "target" => target, "secrets" => secrets, "tags" => tags,
            "ulimits" => ulimits, "platforms" => platforms }
        [some bu::Dockerfile::File] { "dockerfile" => dockerfile } [some bu::Dockerfile::Inline] { "dockerfile_inline" => dockerfile };
        extensions }),
    ty!("config_or_secret", service::ConfigOrSecret, d::config_or_secret_long, d::CONFIG_OR_SECRET, [], sets! { service::ConfigOrSecret;
        [plain] { "source" => source, "target" => target, "mode" => mode } [num] { "uid" => uid, "gid" => gid }; extensions }),
    ty!("deploy", de::Deploy, d::deploy, d::DEPLOY, [D, E], sets! { de::Deploy;
        [plain] { "endpoint_mode" => endpoint_mode, "labels" => labels, "mode" => mode, "placement" => placement, "replicas" => replicas,
            "resources" => resources, "restart_policy" => restart_policy, "rollback_config" => rollback_config,
            "update_config" => update_config }; extensions }),
    ty!("placement", de::Placement, d::placement, d::PLACEMENT, [D, E], sets! { de::Placement;
        [plain] { "constraints" => constraints, "preferences" => preferences, "max_replicas_per_node" => max_replicas_per_node };
        extensions }),
    ty!("preference", de::Preference, d::preference, d::PREFERENCE, [D, E], sets! { de::Preference;
        [plain] { "spread" => spread }; extensions }),
    ty!("resources", re::Resources, d::resources, d::RESOURCES, [D, E], sets! { re::Resources;
        [plain] { "limits" => limits, "reservations" => reservations }; extensions }),
    ty!("limits", re::Limits, d::limits, d::LIMITS, [D, E], sets! { re::Limits;
        [plain] { "cpus" => cpus, "memory" => memory, "pids" => pids }; extensions }),
    ty!("reservations", re::Reservations, d::reservations, d::RESERVATIONS, [D, E], sets! { re::Reservations;
        [plain] { "cpus" => cpus, "memory" => memory, "devices" => devices, "generic_resources" => generic_resources }; extensions }),
    ty!("deploy_device", re::Device, d::deploy_device, d::DEPLOY_DEVICE, [E], sets! { re::Device;
        [plain] { "capabilities" => capabilities, "driver" => driver, "count" => count, "device_ids" => device_ids,
            "options" => options }; extensions }),
    ty!("generic_resource", re::GenericResource, d::generic_resource, d::GENERIC, [D, E], sets! { re::GenericResource;
        [plain] { "discrete_resource_spec" => discrete_resource_spec }; extensions }),
    ty!("discrete_resource_spec", re::DiscreteResourceSpec, d::discrete, d::DISCRETE, [D, E], sets! { re::DiscreteResourceSpec;
        [plain] { "kind" => kind, "value" => value }; extensions }),
    ty!("restart_policy", de::RestartPolicy, d::restart_policy, d::RESTART_POLICY, [D, E], sets! { de::RestartPolicy;
        [plain] { "condition" => condition, "max_attempts" => max_attempts } [dur] { "delay" => delay, "window" => window }; extensions }),
    ty!("update_config", de::UpdateOrRollbackConfig, d::update_config, d::UPDATE, [D, E], sets! { de::UpdateOrRollbackConfig;
        [plain] { "parallelism" => parallelism, "failure_action" => failure_action, "max_failure_ratio" => max_failure_ratio,
            "order" => order } [dur] { "delay" => delay, "monitor" => monitor }; extensions }),
    ty!("develop", dv::Develop, d::develop, d::DEVELOP, [D], sets! { dv::Develop; [plain] { "watch" => watch }; none }),
    ty!("watch_rule", dv::WatchRule, d::watch_rule, d::WATCH, [], sets! { dv::WatchRule;
        [plain] { "action" => action, "ignore" => ignore, "path" => path, "target" => target }; extensions }),
    ty!("ulimit", service::Ulimit, d::ulimit_long, d::ULIMIT, [], sets! { service::Ulimit;
        [plain] { "soft" => soft, "hard" => hard }; extensions }),
    ty!("env_file", ef::Config, d::env_file_long, d::ENV_FILE, [], sets! { ef::Config;
        [plain] { "path" => path, "required" => required }; none }),
    ty!("service_network", nc::Network, d::service_network_some, d::SERVICE_NETWORK, [D, E], sets! { nc::Network;
        [plain] { "aliases" => aliases, "ipv4_address" => ipv4_address, "ipv6_address" => ipv6_address,
            "link_local_ips" => link_local_ips, "mac_address" => mac_address, "driver_opts" => driver_opts, "priority" => priority };
        extensions }),
    ty!("port", ports::Port, d::port_long, d::PORT, [], sets! { ports::Port;
        [plain] { "name" => name, "target" => target, "published" => published, "host_ip" => host_ip, "protocol" => protocol,
            "app_protocol" => app_protocol, "mode" => mode }; extensions }),
    MOUNT,
    ty!("volume_options", m::VolumeOptions, d::volume_options, d::VOLUME_OPTIONS, [D, E], sets! { m::VolumeOptions;
        [plain] { "nocopy" => nocopy, "subpath" => subpath }; extensions }),
    ty!("bind_options", m::BindOptions, d::bind_options, d::BIND_OPTIONS, [D, E], sets! { m::BindOptions;
        [plain] { "propagation" => propagation, "create_host_path" => create_host_path, "selinux" => selinux }; extensions }),
    ty!("tmpfs_options", m::TmpfsOptions, d::tmpfs_options, d::TMPFS_OPTIONS, [D, E], sets! { m::TmpfsOptions;
        [plain] { "size" => size, "mode" => mode }; extensions }),
    Ty {
        empty: Some(|a| match a.downcast_ref::<hc::Healthcheck>().expect("type") {
            hc::Healthcheck::Command(c) => c.is_empty(),
            hc::Healthcheck::Disable => false,
        }),
        ..ty!("healthcheck", hc::Healthcheck, d::healthcheck, d::HEALTH, [D], HEALTH_SETS)
    },
    ty!("network", Resource<compose_spec::Network>, d::network, d::NETWORK, [], res_set! { compose_spec::Network;
        "driver" => driver [plain], "driver_opts" => driver_opts [plain], "attachable" => attachable [plain], "enable_ipv6" => enable_ipv6 [plain],
        "ipam" => ipam [plain], "internal" => internal [plain], "labels" => labels [plain], "name" => name [plain] }),
    ty!("ipam", network::Ipam, d::ipam, d::IPAM, [D, E], sets! { network::Ipam;
        [plain] { "driver" => driver, "config" => config, "options" => options }; extensions }),
    ty!("ipam_config", network::IpamConfig, d::ipam_config, d::IPAM_CONFIG, [D, E], sets! { network::IpamConfig;
        [plain] { "subnet" => subnet, "ip_range" => ip_range, "gateway" => gateway, "aux_addresses" => aux_addresses }; extensions }),
    ty!("volume", Resource<compose_spec::Volume>, d::top_volume, d::VOLUME, [], res_set! { compose_spec::Volume;
        "driver" => driver [plain], "driver_opts" => driver_opts [plain], "labels" => labels [plain], "name" => name [plain] }),
    ty!("config", Resource<compose_spec::Config>, d::config, d::CONFIG, [], res_set! { compose_spec::Config;
        "file" => source [wrap config::Source::File], "environment" => source [wrap config::Source::Environment],
        "content" => source [wrap config::Source::Content], "labels" => labels [plain] }),
    ty!("secret", Resource<compose_spec::Secret>, d::secret, d::SECRET, [], res_set! { compose_spec::Secret;
        "file" => source [wrap secret::Source::File], "environment" => source [wrap secret::Source::Environment],
        "labels" => labels [plain], "driver" => driver [plain], "driver_opts" => driver_opts [plain] }),
    // the same types without the resource wrapper
    ty!("network_bare", compose_spec::Network, d::network_bare, d::NETWORK, [D, E], sets! { compose_spec::Network;
        [plain] { "driver" => driver, "driver_opts" => driver_opts, "attachable" => attachable, "enable_ipv6" => enable_ipv6,
            "ipam" => ipam, "internal" => internal, "labels" => labels, "name" => name }; extensions }),
    ty!("volume_bare", compose_spec::Volume, d::volume_bare, d::VOLUME, [D, E], sets! { compose_spec::Volume;
        [plain] { "driver" => driver, "driver_opts" => driver_opts, "labels" => labels, "name" => name }; extensions }),
    ty!("config_bare", compose_spec::Config, d::config_bare, d::CONFIG, [], sets! { compose_spec::Config;
        [wrap config::Source::File] { "file" => source } [wrap config::Source::Environment] { "environment" => source }
        [wrap config::Source::Content] { "content" => source } [plain] { "labels" => labels }; extensions }),
    ty!("secret_bare", compose_spec::Secret, d::secret_bare, d::SECRET, [], sets! { compose_spec::Secret;
        [wrap secret::Source::File] { "file" => source } [wrap secret::Source::Environment] { "environment" => source }
        [plain] { "labels" => labels, "driver" => driver, "driver_opts" => driver_opts }; extensions }),
    // parts of mounts, configs and secrets
    ty!("bare_volume", m::Volume, d::bare_volume, d::BARE_VOLUME, [], part_sets! { m::Volume; source, volume }),
    ty!("bare_bind", m::Bind, d::bare_bind, d::BARE_BIND, [], part_sets! { m::Bind; source, bind }),
    ty!("bare_tmpfs", m::Tmpfs, d::bare_tmpfs, d::BARE_TMPFS, [], part_sets! { m::Tmpfs; tmpfs }),
    ty!("bare_npipe", m::NamedPipe, d::bare_npipe, d::BARE_PIPE, [], part_sets! { m::NamedPipe; source }),
    ty!("bare_cluster", m::Cluster, d::bare_cluster, d::BARE_CLUSTER, [], part_sets! { m::Cluster; source }),
    ty!("common", m::Common, d::common, d::COMMON, [], sets! { m::Common;
        [plain] { "target" => target, "read_only" => read_only, "consistency" => consistency }; extensions }),
    ty!("config_source", config::Source, d::config_source, d::CONFIG_SOURCE, [], &[
        ("file", |a, v| { *a.downcast_mut::<config::Source>().ok_or("type")? = config::Source::File(y(v)?); Ok(()) }),
        ("environment", |a, v| { *a.downcast_mut::<config::Source>().ok_or("type")? = config::Source::Environment(y(v)?); Ok(()) }),
        ("content", |a, v| { *a.downcast_mut::<config::Source>().ok_or("type")? = config::Source::Content(y(v)?); Ok(()) }),
    ]),
    ty!("secret_source", secret::Source, d::secret_source, d::SECRET_SOURCE, [], &[
        ("file", |a, v| { *a.downcast_mut::<secret::Source>().ok_or("type")? = secret::Source::File(y(v)?); Ok(()) }),
        ("environment", |a, v| { *a.downcast_mut::<secret::Source>().ok_or("type")? = secret::Source::Environment(y(v)?); Ok(()) }),
    ]),
];
pub fn find(name: &str) -> &'static Ty {
    TYPES.iter().find(|t| t.name == name).expect("type")
}
/// Types without the two big ones.
pub fn pick(r: &mut crate::rng::Rng) -> &'static Ty {
    match r.below(10) {
        0..=2 => &TYPES[0],
        3..=5 => &TYPES[1],
        _ => &TYPES[2 + r.below(TYPES.len() - 2)],
    }
}
