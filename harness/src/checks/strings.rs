//! Stages over the table of textual types (C03, C04, C05, C19).
use crate::alloc::measured;
use crate::mon::{quiet_catch, Case};
use crate::recog::Rec;
use crate::rng::Rng;
use crate::strs::{g_world, mutate, tcs, DynTc, WORLD};

fn pick(c: &Case) -> &'static dyn DynTc {
    let t = tcs();
    &*t[c.index as usize % t.len()]
}

/// A part of a text over and over: that many times, or until the text is about that long, or that
/// much longer.
pub fn long_text(r: &mut Rng, s: &str, sizes: &[usize]) -> String {
    let chars: Vec<char> = s.chars().collect();
    let (a, b) = (r.below(chars.len() + 1), r.below(chars.len() + 1));
    let (a, b) = if r.bool() { (a.min(b), a.max(b)) } else { (a, (a + 1 + r.below(3)).min(chars.len())) };
    let part = &chars[a..b];
    if part.is_empty() {
        return s.to_owned();
    }
    let n = *r.pick(sizes);
    let near = r.below(5);
    let extra: Vec<char> = match r.below(3) {
        0 if part.len() < 5 => part.iter().copied().cycle().take((n + near - 2) * part.len()).collect(),
        1 => part.iter().copied().cycle().take((n + near - 2).saturating_sub(chars.len())).collect(),
        _ => part.iter().copied().cycle().take(n).collect(),
    };
    chars[..b].iter().copied().chain(extra).chain(chars[b..].iter().copied()).collect()
}

/// A batch of texts for one type: generated, edited, spliced and odd ones.
pub fn texts(r: &mut Rng, t: &dyn DynTc, n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        if r.chance(1, 48) {
            let g = t.gen(r);
            let g = long_text(r, &g, &[128, 256, 256, 512]);
            v.push(if r.chance(1, 4) { mutate(r, &g, t.alphabet()) } else { g });
            continue;
        }
        let s = match r.below(11) {
            0..=3 => t.gen(r),
            10 => {
                let g = g_world(r);
                match r.below(4) {
                    0 => g + &t.gen(r),
                    1 => t.gen(r) + &g,
                    2 => mutate(r, &g, t.alphabet()),
                    _ => g,
                }
            }
            4..=7 => {
                let g = t.gen(r);
                mutate(r, &g, t.alphabet())
            }
            8 => {
                // splice two valid texts
                let (a, b) = (t.gen(r), t.gen(r));
                let i = r.below(a.chars().count() + 1);
                let j = r.below(b.chars().count() + 1);
                a.chars().take(i).chain(b.chars().skip(j)).collect()
            }
            _ => r.string_of(t.alphabet(), 0, 6),
        };
        v.push(s);
    }
    v
}

fn grammar_one(c: &mut Case, t: &dyn DynTc, s: &str) {
    if t.skip(s) {
        return;
    }
    let want = t.recog(s);
    let Some(got) = c.guard(t.name(), s, || t.ins(s)) else { return };
    match want {
        Rec::U => c.event("unspecified"),
        Rec::A | Rec::R => {
            let acc = want == Rec::A;
            c.event(if acc { "accepting" } else { "rejecting" });
            if acc || !s.is_empty() {
                c.seen(&(t.name(), s));
            }
            for (route, ok) in got {
                if ok != acc {
                    let word = if acc { "rejects" } else { "accepts" };
                    c.fail(
                        format!("grammar:{}:{word}:{route}", t.name()),
                        format!("{} ({route}) {word} {s:?}, which the rule {}", t.name(), if acc { "allows" } else { "forbids" }),
                    );
                    break;
                }
            }
        }
    }
}

pub fn grammar_random(c: &mut Case) {
    let t = pick(c);
    let v = texts(&mut c.rng.clone(), t, 40);
    c.sample(|| format!("{}: {:?}", t.name(), &v[..4]));
    for s in &v {
        grammar_one(c, t, s);
    }
}

/// Index space of the exhaustive short-text stage: type x first character.
pub fn exhaustive_cases() -> u64 {
    tcs().len() as u64 * 32
}
fn exhaustive(c: &mut Case, len: usize, f: fn(&mut Case, &dyn DynTc, &str)) {
    let t = pick(c);
    let al: Vec<char> = t.alphabet().chars().collect();
    let k = (c.index / tcs().len() as u64) as usize;
    if k > al.len() {
        return;
    }
    if k == al.len() {
        f(c, t, "");
        return;
    }
    let mut idx: Vec<usize> = vec![];
    // odometer over all suffixes up to len-1 characters
    loop {
        let s: String = std::iter::once(al[k]).chain(idx.iter().map(|i| al[*i])).collect();
        f(c, t, &s);
        let mut p = idx.len();
        loop {
            if p == 0 {
                if idx.len() + 1 >= len {
                    return;
                }
                idx = vec![0; idx.len() + 1];
                break;
            }
            p -= 1;
            idx[p] += 1;
            if idx[p] < al.len() {
                break;
            }
            idx[p] = 0;
        }
    }
}
pub fn grammar_exhaustive3(c: &mut Case) {
    exhaustive(c, 3, grammar_one);
}
pub fn grammar_exhaustive4(c: &mut Case) {
    exhaustive(c, 4, grammar_one);
}

/// Length limits and single odd characters in every position.
pub fn grammar_boundaries(c: &mut Case) {
    let t = pick(c);
    let mut r = c.rng.clone();
    let al: Vec<char> = t.alphabet().chars().collect();
    let k = r.below(4);
    if k == 0 {
        let ch = *r.pick(&al);
        let pre: String = t.gen(&mut r);
        for n in [1usize, 2, 3, 31, 32, 33, 62, 63, 64, 126, 127, 128, 129, 130, 254, 255, 256, 257] {
            grammar_one(c, t, &ch.to_string().repeat(n));
            grammar_one(c, t, &(pre.clone() + &ch.to_string().repeat(n)));
        }
    } else {
        // every ASCII character (and some others) at one position of a valid text
        let base: Vec<char> = t.gen(&mut r).chars().collect();
        let i = r.below(base.len() + 1);
        let ins = r.bool();
        let more = ['\u{80}', '\u{85}', '\u{a0}', 'ß', 'é', '１', '٣', '\u{3000}', '\u{200b}', '\u{feff}', 'İ', 'Ａ', '\u{10ffff}'];
        for ch in (0u8..128).map(char::from).chain(more) {
            let mut b = base.clone();
            if ins || i >= b.len() {
                b.insert(i.min(b.len()), ch);
            } else {
                b[i] = ch;
            }
            let s: String = b.into_iter().collect();
            grammar_one(c, t, &s);
        }
    }
}

/// Long texts: around and past the sizes where a counter of 8 or 16 bits would start again.
pub fn grammar_long(c: &mut Case) {
    let t = pick(c);
    let mut r = c.rng.clone();
    let rare = c.index / tcs().len() as u64 % 8 == 7;
    for _ in 0..if rare { 1 } else { 24 } {
        let g = t.gen(&mut r);
        let s = if rare { long_text(&mut r, &g, &[65_536]) } else { long_text(&mut r, &g, &[128, 256, 512, 1024]) };
        let s = match r.chance(1, 3) {
            false => s,
            true if rare => r.string_of(t.alphabet(), 0, 1) + &s + &r.string_of(t.alphabet(), 0, 1),
            true => mutate(&mut r, &s, t.alphabet()),
        };
        grammar_one(c, t, &s);
    }
}

pub fn world_cases() -> u64 {
    tcs().len() as u64 * WORLD.len() as u64
}
/// Each text of the collection for each type; around those the rule allows, every ASCII character
/// put in at every position and in place of every character, and every character left out.
pub fn grammar_world_edits(c: &mut Case) {
    world(c, true);
}
/// The same with the edits at one position only.
pub fn grammar_world(c: &mut Case) {
    world(c, false);
}
fn world(c: &mut Case, everywhere: bool) {
    let t = pick(c);
    let s = WORLD[(c.index / tcs().len() as u64) as usize % WORLD.len()];
    grammar_one(c, t, s);
    for x in [s.to_ascii_uppercase(), s.to_ascii_lowercase(), format!("{s}{s}"), format!("{s} "), format!(" {s}"), format!("{s}\n")] {
        grammar_one(c, t, &x);
    }
    if t.recog(s) != Rec::A || s.len() > 40 {
        return;
    }
    let base: Vec<char> = s.chars().collect();
    let join = |a: &[char], m: Option<char>, b: &[char]| a.iter().copied().chain(m).chain(b.iter().copied()).collect::<String>();
    let at = c.rng.clone().below(base.len() + 1);
    for i in if everywhere { 0..=base.len() } else { at..=at } {
        for ch in (0u8..128).map(char::from) {
            grammar_one(c, t, &join(&base[..i], Some(ch), &base[i..]));
            if i < base.len() {
                grammar_one(c, t, &join(&base[..i], Some(ch), &base[i + 1..]));
            }
        }
        if i < base.len() {
            grammar_one(c, t, &join(&base[..i], None, &base[i + 1..]));
        }
    }
}

fn routes_one(c: &mut Case, t: &dyn DynTc, s: &str) {
    if t.skip(s) {
        return;
    }
    match quiet_catch(|| t.routes(s)) {
        Err(p) => c.fail(format!("panic:{}", t.name()), format!("{} on {s:?} panicked: {p}", t.name())),
        Ok(Err((sig, d))) => c.fail(format!("routes:{sig}"), d),
        Ok(Ok((n, acc))) => {
            c.event_n("route comparisons", n);
            if acc {
                c.event("accepted texts");
                c.seen(&(t.name(), s));
            } else {
                c.event("rejected texts");
            }
        }
    }
}
/// What every way in makes of texts, as an observation.
pub fn outcomes(c: &mut Case) {
    let t = pick(c);
    for s in texts(&mut c.rng.clone(), t, 12) {
        if !t.skip(&s) {
            c.seen(&(t.name(), &s));
            let all = quiet_catch(|| t.all(&s)).unwrap_or_else(|p| p);
            c.event(&format!("{:016x}", all.bytes().fold(0u64, |h, b| crate::rng::mix(h ^ u64::from(b)))));
        }
    }
}
/// The same in a fixed order, for other processes.
pub fn digest(r: &mut Rng, names: &mut dyn FnMut(&str)) -> u64 {
    let all = tcs();
    let t = &*all[r.below(all.len())];
    let mut h = 0;
    for s in texts(r, t, 4) {
        if !t.skip(&s) && s.len() < 5000 {
            names(&s);
            let all = quiet_catch(|| t.all(&s)).unwrap_or_else(|p| p);
            h = all.bytes().fold(h, |h, b| crate::rng::mix(h ^ u64::from(b)));
        }
    }
    h
}
pub fn routes_random(c: &mut Case) {
    let t = pick(c);
    let v = texts(&mut c.rng.clone(), t, 30);
    c.sample(|| format!("{}: {:?}", t.name(), &v[..4]));
    for s in &v {
        routes_one(c, t, s);
    }
}
pub fn routes_exhaustive2(c: &mut Case) {
    exhaustive(c, 2, routes_one);
}
pub fn routes_exhaustive3(c: &mut Case) {
    exhaustive(c, 3, routes_one);
}

pub fn coherence(c: &mut Case) {
    let t = pick(c);
    let mut r = c.rng.clone();
    // Similar texts: a base and its small edits, plus unrelated ones and repeats.
    let mut v: Vec<String> = Vec::new();
    let base = t.gen(&mut r);
    v.push(base.clone());
    for _ in 0..4 {
        v.push(mutate(&mut r, &base, t.alphabet()));
    }
    for _ in 0..3 {
        v.push(t.gen(&mut r));
    }
    let up = base.to_ascii_uppercase();
    let low = base.to_ascii_lowercase();
    v.push(up);
    v.push(low);
    v.push(base + "a");
    let k = r.below(v.len());
    v.push(v[k].clone());
    v.retain(|s| !t.skip(s));
    match quiet_catch(|| t.coherence(&v)) {
        Err(p) => c.fail(format!("panic:{}", t.name()), format!("{} on {v:?} panicked: {p}", t.name())),
        Ok(Err((sig, d))) => c.fail(format!("coherence:{sig}"), d),
        Ok(Ok(n)) => {
            c.event_n("pair and lookup checks", n);
            c.seen(&(t.name(), &v));
            c.sample(|| format!("{}: {v:?}", t.name()));
        }
    }
}

/// Hostile texts: no panic, no disproportionate allocation.
pub fn hostile(c: &mut Case) {
    let t = pick(c);
    let mut r = c.rng.clone();
    let mut v = texts(&mut r, t, 20);
    let big = ["18446744073709551615", "18446744073709551616", "4294967296", "65536", "65535", "-1", "340282366920938463463374607431768211456", "00000000000000000000000000000", "9223372036854775808", "-9223372036854775809", "1e400", "NaN", "inf", "-inf", "."];
    for _ in 0..6 {
        // replace every run of digits or a random position by an extreme
        let g = t.gen(&mut r);
        let i = r.below(g.chars().count() + 1);
        let b = r.pick_str(&big);
        let s: String = g.chars().take(i).chain(b.chars()).chain(g.chars().skip(i)).collect();
        v.push(s);
        let d: String = g.chars().filter(|x| !x.is_ascii_digit()).collect::<String>();
        v.push(b.clone() + &d);
        v.push(d + &b);
    }
    let ch = r.pick_str(&[":", "/", ".", "-", "0", "a", "@", "=", ",", " ", "\u{e9}", "\u{10ffff}", "[", "x-"]);
    v.push(ch.repeat(5000));
    for s in v {
        if t.skip(&s) {
            continue;
        }
        let s = s.as_str();
        match quiet_catch(|| measured(|| t.routes(s).map(|x| x.1).unwrap_or(true))) {
            Err(p) => c.fail(format!("panic:{}", t.name()), format!("{} on {s:?} panicked: {p}", t.name())),
            Ok((acc, peak, _)) => {
                c.event(if acc { "accepted texts" } else { "rejected texts" });
                c.seen(&(t.name(), s));
                // Sets list every element; the texts here are at most a few kB long.
                let limit = 4_000_000 + 4000 * s.len() as u64 + if t.name() == "CpuSet" { 20_000_000 } else { 0 };
                if peak > limit {
                    c.fail(
                        format!("memory:{}", t.name()),
                        format!("{}: {} bytes live at once for a text of {} bytes: {:?}", t.name(), peak, s.len(), s.chars().take(80).collect::<String>()),
                    );
                }
            }
        }
    }
}

/// The borrowed parts of images compare as their texts do.
pub fn image_parts(c: &mut Case) {
    use compose_spec::service::image::{Digest, Name, Tag};
    use compose_spec::service::Image;
    use crate::strs as g;
    use std::collections::{BTreeSet, HashSet};
    let mut r = c.rng.clone();
    let family = |r: &mut Rng, f: fn(&mut Rng) -> String, alphabet: &str| -> Vec<String> {
        let base = f(r);
        let mut v = vec![base.clone(), base.clone(), base.to_uppercase(), base.clone() + "a"];
        for _ in 0..4 {
            v.push(mutate(r, &base, alphabet));
        }
        v.push(f(r));
        r.shuffle(&mut v);
        v
    };
    macro_rules! compare {
        ($name:literal, $make:expr, $texts:expr, $as:expr) => {{
            let texts: Vec<String> = $texts;
            let v: Vec<_> = texts.iter().filter_map(|t| $make(t.as_str()).ok().map(|x| (x, t.as_str()))).collect();
            c.seen(&texts);
            c.sample(|| format!("{}: {texts:?}", $name));
            for (a, s) in &v {
                for (b, t) in &v {
                    c.event("pairs compared");
                    let ok = (a == b) == (s == t) && a.cmp(b) == s.cmp(t) && g::ops_agree(a, b);
                    c.check(ok, concat!("parts:", $name, ":order"), || format!("{s:?} and {t:?}: == {}, {:?}", a == b, a.cmp(b)));
                    c.check((*a == **t) == (s == t) && (*a == *t) == (s == t) && (*a != **t) == (s != t), concat!("parts:", $name, ":text"), || format!("{s:?} compared with the text {t:?}"));
                }
                for t in &texts {
                    c.check((*a == **t) == (s == t), concat!("parts:", $name, ":text"), || format!("{s:?} compared with the text {t:?}"));
                }
                c.check($as(a) == *s, concat!("parts:", $name, ":as"), || format!("{s:?} is {}", $as(a)));
            }
            let distinct: BTreeSet<&str> = v.iter().map(|v| v.1).collect();
            let hashed: HashSet<_> = v.iter().map(|v| &v.0).collect();
            let sorted: BTreeSet<_> = v.iter().map(|v| &v.0).collect();
            c.check(hashed.len() == distinct.len(), concat!("parts:", $name, ":hash"), || format!("{distinct:?}: {} in a set", hashed.len()));
            c.check(sorted.iter().map(|x| $as(x).to_owned()).eq(distinct.iter().map(|x| (*x).to_owned())), concat!("parts:", $name, ":sorted"), || format!("{distinct:?}"));
        }};
    }
    let texts = family(&mut r, g::g_image_name, "az09._-/:");
    compare!("Name", Name::new, texts, |x: &Name| x.to_string());
    let texts = family(&mut r, g::g_tag, "azZ09._-");
    compare!("Tag", Tag::new, texts, |x: &Tag| x.to_string());
    let texts = family(&mut r, g::g_digest, "af09:+");
    compare!("Digest", Digest::new, texts, |x: &Digest| x.to_string());
    // an image compares as its text however it came to be
    let mut texts = family(&mut r, g::g_image, "az09._-/:@");
    texts.truncate(5);
    let mut images: Vec<(Image, String)> = Vec::new();
    for t in &texts {
        let Ok(i) = Image::parse(t.as_str()) else { continue };
        let mut j = Image::from(i.as_name());
        j.set_tag_or_digest(i.as_tag_or_digest());
        images.push((j, t.clone()));
        images.push((i, t.clone()));
    }
    for (a, s) in &images {
        for (b, t) in &images {
            c.event("pairs compared");
            let ok = (a == b) == (s == t) && a.cmp(b) == s.cmp(t) && g::ops_agree(a, b) && (*a == **t) == (s == t) && (*a == t.as_str()) == (s == t);
            c.check(ok, "parts:Image", || format!("{s:?} and {t:?}: == {}, {:?}", a == b, a.cmp(b)));
        }
    }
}
