//! C29 and C30: other data formats, and formats, streams and formatters that fail.
use super::documents::{any_doc, g, gen, show};
use crate::docs::{same, to_value};
use crate::driven::presentable;
use crate::mon::{quiet_catch, Case};
use crate::rng::Rng;
use crate::strs::tcs;
use crate::types::{self, Ty, B};
use crate::written::{Log, INJECTED};
use compose_spec::Compose;
use serde_yaml::Value as V;
use std::io::{self, Read, Write};
use std::net::IpAddr;

// ---- C29 -------------------------------------------------------------------------------------
pub fn written(c: &mut Case) {
    let mut g = g(c);
    g.density = *g.r.pick(&[10, 40, 80]);
    let ty = types::pick(&mut g.r);
    let v = to_value(&gen(&mut g, ty).0);
    let Ok(t) = (ty.from_value)(v.clone()) else { return c.event("skipped: rejected") };
    let (Ok(want), json) = (t.value(), t.json()) else { return c.event("skipped: not written") };
    if !presentable(&want) {
        return c.event("skipped: tags or keys");
    }
    c.seen(&(ty.name, show(&v)));
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    for human in [true, false] {
        let log = Log::new(u64::MAX, human);
        let got = match quiet_catch(|| t.write(&log)) {
            Ok(r) => r,
            Err(p) => return c.fail(format!("panic:{}", ty.name), format!("{}: {p}", show(&v))),
        };
        c.event_n("calls of the format observed", log.steps.get());
        c.event_n("announced sizes compared", log.announced.get());
        if let Some(p) = log.problems.borrow().first() {
            let kind: String = p.chars().filter(|c| !c.is_ascii_digit()).collect();
            return c.fail(format!("protocol:{}:{kind}", ty.name), format!("{}: {p}", show(&v)));
        }
        match got {
            Err(e) => c.fail(format!("rejected:{}", ty.name), format!("{}: {e}", show(&v))),
            Ok(w) if human => {
                if !same(&want, &w) {
                    c.fail(format!("differs:{}", ty.name), format!("{}: {} is written, to YAML {}", show(&v), show(&w), show(&want)));
                }
                if let (Ok(a), Ok(b)) = (&json, serde_json::to_string(&w)) {
                    c.event("compared with JSON");
                    if *a != b {
                        c.fail(format!("json:{}", ty.name), format!("{a} to JSON, {b} to another format"));
                    }
                }
            }
            Ok(w) => {
                c.event("written to a binary format");
                if !same_packed(&want, &w) {
                    c.fail(format!("packed:{}", ty.name), format!("{}: {} is written to a binary format, to YAML {}", show(&v), show(&w), show(&want)));
                }
            }
        }
    }
}
/// Equal but for network addresses, which the standard library hands to binary formats as numbers.
fn same_packed(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Mapping(a), V::Mapping(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| same_packed(k, l) && same_packed(v, w)),
        (V::Sequence(a), V::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same_packed(v, w)),
        (V::String(s), V::Sequence(n)) => {
            let n: Option<Vec<u8>> = n.iter().map(|n| u8::try_from(n.as_u64()?).ok()).collect();
            let (ip, prefix) = s.split_once('/').unwrap_or((s, ""));
            let mut want = match ip.parse() {
                Ok(IpAddr::V4(ip)) => ip.octets().to_vec(),
                Ok(IpAddr::V6(ip)) => ip.octets().to_vec(),
                Err(_) => return false,
            };
            want.extend(prefix.parse::<u8>());
            n == Some(want)
        }
        (V::String(s), V::Mapping(m)) => m.len() == 1 && m.iter().all(|(k, v)| k == if s.contains(':') { "V6" } else { "V4" } && same_packed(a, v)),
        _ => same(a, b),
    }
}
// ---- C30 -------------------------------------------------------------------------------------
/// Steps to fail at: the first, the last and some others.
fn points(r: &mut Rng, n: u64, count: usize) -> Vec<u64> {
    let mut p = vec![1, n];
    for _ in 0..count {
        p.push(r.range(1, n.max(1)));
    }
    p.retain(|k| *k >= 1 && *k <= n);
    p.sort_unstable();
    p.dedup();
    p
}
fn judge(c: &mut Case, what: &str, ty: &Ty, v: &V, at: u64, r: Result<Result<(), String>, String>) {
    c.event("failures injected");
    match r {
        Err(p) => c.fail(format!("panic:{what}:{}", ty.name), format!("{} with a failure at {at}: {p}", show(v))),
        Ok(Ok(())) => c.fail(format!("swallowed:{what}:{}", ty.name), format!("{}: succeeds though step {at} failed", show(v))),
        Ok(Err(e)) => {
            if !e.contains(INJECTED) {
                c.fail(format!("replaced:{what}:{}", ty.name), format!("{}: the failure at {at} is reported as {e:?}", show(v)));
            }
        }
    }
}
fn unit<T, E>(r: Result<T, E>) -> Result<(), E> {
    r.map(|_| ())
}
pub fn failing_writer(c: &mut Case) {
    let mut g = g(c);
    g.density = *g.r.pick(&[10, 40, 80]);
    let ty = types::pick(&mut g.r);
    let v = to_value(&gen(&mut g, ty).0);
    let Ok(t) = (ty.from_value)(v.clone()) else { return c.event("skipped: rejected") };
    let human = g.r.bool();
    let log = Log::new(u64::MAX, human);
    if t.write(&log).is_err() {
        return c.event("skipped: not written");
    }
    c.seen(&(ty.name, show(&v)));
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    for k in points(&mut g.r, log.steps.get(), 8) {
        let log = Log::new(k, human);
        let r = quiet_catch(|| unit(t.write(&log)));
        judge(c, "write", ty, &v, k, r);
    }
    for (what, f) in [("yaml", (|t, w| t.yaml_to(w)) as fn(&B, &mut dyn Write) -> Result<(), String>), ("json", |t, w| t.json_to(w))] {
        let mut full = Pipe { left: u64::MAX, got: vec![] };
        if f(&t, &mut full).is_err() {
            continue;
        }
        for k in points(&mut g.r, full.got.len() as u64, 4) {
            let mut w = Pipe { left: k - 1, got: vec![] };
            let r = quiet_catch(|| f(&t, &mut w));
            judge(c, what, ty, &v, k, r);
            c.check(full.got.starts_with(&w.got), "not-a-beginning", || format!("{}: {what} wrote {:?} before the failure", show(&v), String::from_utf8_lossy(&w.got)));
        }
    }
}
struct Pipe {
    left: u64,
    got: Vec<u8>,
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(io::Error::other(INJECTED));
        }
        let n = usize::try_from(self.left).unwrap_or(usize::MAX).min(b.len());
        self.left -= n as u64;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn failing_reader(c: &mut Case) {
    let mut g = g(c);
    g.density = *g.r.pick(&[10, 40, 80]);
    let ty = types::pick(&mut g.r);
    let v = any_doc(&mut g, ty);
    if !presentable(&v) || super::documents::huge_cpuset(&v) {
        return c.event("skipped: tags or keys");
    }
    let seed = g.r.u64();
    let (whole, left) = (ty.from_failing)(&v, &mut Rng::new(seed), u64::MAX - 1);
    let steps = u64::MAX - 1 - left;
    c.event(if whole.is_ok() { "accepted data" } else { "rejected data" });
    c.seen(&(ty.name, show(&v)));
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    for k in points(&mut g.r, steps, 10) {
        let mut left = 1;
        let r = quiet_catch(|| {
            let (r, l) = (ty.from_failing)(&v, &mut Rng::new(seed), k);
            left = l;
            unit(r)
        });
        if left != 0 {
            c.fail(format!("unsteady:{}", ty.name), format!("{}: step {k} of {steps} is not reached the second time", show(&v)));
        } else {
            judge(c, "read", ty, &v, k, r);
        }
    }
}
/// A stream that ends in a failure, is interrupted, or delivers a byte at a time.
struct Stream<'a> {
    data: &'a [u8],
    chunk: usize,
    fails: bool,
    interrupts: u32,
    r: Rng,
}
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.interrupts > 0 && self.r.below(3) == 0 {
            self.interrupts -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.data.len().min(b.len()).min(self.chunk);
        if n == 0 && self.fails {
            return Err(io::Error::other(INJECTED));
        }
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
type From = fn(&Ty, &mut dyn Read) -> Result<B, String>;
pub fn failing_stream(c: &mut Case) {
    let mut g = g(c);
    g.density = *g.r.pick(&[10, 40, 80]);
    let ty = types::pick(&mut g.r);
    let v = any_doc(&mut g, ty);
    if super::documents::huge_cpuset(&v) {
        return;
    }
    let (Ok(yaml), json) = (serde_yaml::to_string(&v), serde_json::to_string(&v)) else { return };
    c.seen(&(ty.name, show(&v)));
    c.sample(|| format!("{} {}", ty.name, show(&v)));
    fn options(merge: bool, r: &mut dyn Read) -> Result<B, String> {
        let mut o = Compose::options();
        o.apply_merge(merge).from_yaml_reader(r).map(|t| Box::new(t) as B).map_err(|e| e.to_string())
    }
    let mut ways: Vec<(&str, From, &str)> = vec![("yaml", |ty, r| (ty.from_yaml_read)(r), &yaml)];
    if let Ok(j) = &json {
        ways.push(("json", |ty, r| (ty.from_json_read)(r), j));
    }
    if ty.name == "compose" {
        ways.push(("options", |_, r| options(false, r), &yaml));
        ways.push(("options-merge", |_, r| options(true, r), &yaml));
    }
    for (what, f, text) in ways {
        let mut stream = |data, fails, interrupts| Stream { data, chunk: *g.r.pick(&[1, 2, 7, 64, 5000]), fails, interrupts, r: Rng::new(g.r.u64()) };
        let all = text.as_bytes();
        let whole = quiet_catch(|| f(ty, &mut stream(all, false, 0)).map(|t| t.dbg()));
        let slow = quiet_catch(|| f(ty, &mut stream(all, false, 9)).map(|t| t.dbg()));
        c.event("interrupted streams");
        if whole != slow {
            c.fail(format!("interrupted:{what}:{}", ty.name), format!("{text}: {whole:?}, when interrupted {slow:?}"));
        }
        let ok = matches!(whole, Ok(Ok(_)));
        c.event(if ok { "accepted texts" } else { "rejected texts" });
        let mut cuts: Vec<usize> = (0..4).map(|_| Rng::new(c.rng.u64()).below(all.len() + 1)).collect();
        cuts.push(all.len());
        cuts.push(0);
        for cut in cuts {
            let r = quiet_catch(|| unit(f(ty, &mut stream(&all[..cut], true, 0))));
            // JSON may be found wrong before the failure is reached
            if what == "json" && !ok && matches!(r, Ok(Err(_))) {
                c.event("failures injected");
                continue;
            }
            judge(c, what, ty, &v, cut as u64, r);
        }
    }
}
/// Formatting into a writer that fails at any character.
pub fn failing_formatter(c: &mut Case) {
    let all = tcs();
    let t = &*all[c.index as usize % all.len()];
    let mut r = c.rng.clone();
    for text in super::strings::texts(&mut r, t, 8) {
        if t.skip(&text) {
            continue;
        }
        let full = match quiet_catch(|| t.display(&text, None)) {
            Ok(Some(s)) => s,
            Ok(None) => {
                c.event("no text");
                continue;
            }
            Err(p) => return c.fail(format!("panic:{}", t.name()), format!("{} {text:?}: {p}", t.name())),
        };
        c.check(full.starts_with('+'), &format!("display:{}", t.name()), || format!("{text:?}: formatting fails"));
        let full = &full[1..];
        c.event("accepted texts");
        c.seen(&(t.name(), &text));
        c.sample(|| format!("{}: {full:?}", t.name()));
        let n = full.chars().count();
        for k in (0..n.min(40)).chain(n.saturating_sub(3).max(40.min(n))..n) {
            c.event("failures injected");
            match quiet_catch(|| t.display(&text, Some(k))) {
                Err(p) => return c.fail(format!("panic:display:{}", t.name()), format!("{text:?} into {k} characters: {p}")),
                Ok(got) => {
                    let got = got.unwrap_or_default();
                    if !got.starts_with('-') {
                        return c.fail(format!("swallowed:display:{}", t.name()), format!("{text:?} into {k} characters, of {n}: {got:?} and no failure"));
                    }
                    if !full.starts_with(&got[1..]) {
                        return c.fail(format!("not-a-beginning:{}", t.name()), format!("{text:?} into {k} characters: {got:?}, the whole is {full:?}"));
                    }
                }
            }
        }
    }
}
