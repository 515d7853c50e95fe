//! The properties: stages of generated cases with their oracles.
use crate::mon::{Prop, Stage};
mod built;
mod formats;
mod growth;
mod kinds;
pub mod documents;
pub mod links;
mod models;
pub use models::ext_value;
mod errors;
mod parts;
mod strings;

fn st(name: &'static str, rule: &'static str, quick: u64, thorough: u64, run: fn(&mut crate::mon::Case)) -> Stage {
    Stage { name, rule, quick, thorough, run }
}

type Workload = (&'static str, fn(&mut crate::mon::Case));
/// Workloads that call the public operations on values obtained from generated inputs.
const OPERATIONS: &[Workload] = &[
    ("images", models::image_history),
    ("image texts", models::image_parse),
    ("port ranges", models::port_ranges),
    ("short ranges", models::short_ranges_history),
    ("short ports", models::short_port),
    ("long ports", models::long_port),
    ("short volumes", models::short_volume),
    ("long mounts", models::long_mount),
    ("durations", models::durations),
    ("duration fields", models::duration_fields),
    ("scalars", models::scalars),
    ("lists and maps", models::lists_and_maps),
    ("integers", models::bounded_integers),
    ("byte values", models::byte_values),
    ("platform texts", models::platform_texts),
    ("text parts", parts::text_parts),
    ("absolute paths", parts::absolute_paths),
    ("host paths", parts::host_paths),
    ("numbers", built::numbers),
    ("built ports", built::ports),
    ("built mounts", built::mounts),
    ("other conversions", built::others),
    ("raw paths", built::raw_paths),
    ("text order", parts::text_order),
    ("conversion order", parts::conversion_order),
    ("resources", parts::resources),
    ("extra hosts", parts::extra_hosts),
    ("short and long", links::short_long),
    ("references", links::references),
    ("merges", links::merges),
    ("many entries", growth::many_operations),
];
fn operations_judged(c: &mut crate::mon::Case) {
    let (label, f) = OPERATIONS[c.rng.below(OPERATIONS.len() - 1)];
    c.event(label);
    f(c);
}
fn operations(c: &mut crate::mon::Case) {
    // two numbers without a common factor keep every type of every workload in turn
    let (label, f) = OPERATIONS[c.index as usize / 2 % OPERATIONS.len()];
    c.event(label);
    c.only_panics(label, f);
}

/// The workloads of all properties, with a system that answers differently.
fn other_answers(c: &mut crate::mon::Case) {
    const W: &[(&str, fn(&mut crate::mon::Case))] = &[
        ("outcomes", documents::outcomes),
        ("outcomes of texts", strings::outcomes),
        ("entry points", documents::entry_points),
        ("edited entry points", documents::entry_points_edited),
        ("outcomes", documents::outcomes),
        ("outcomes of texts", strings::outcomes),
        ("round trips", documents::round_trips),
        ("rejected documents", errors::rejected_documents),
        ("routes", strings::routes_random),
        ("coherence", strings::coherence),
        ("operations", operations_judged),
        ("operations", operations_judged),
        ("operations", operations_judged),
        ("kinds of data", kinds::kinds),
        ("formats", formats::written),
    ];
    static ALIVE: std::sync::OnceLock<(String, String, u64, u64)> = std::sync::OnceLock::new();
    let alive = ALIVE.get_or_init(|| {
        let (a, n, _) = crate::asked::watch(1, crate::asked::probe);
        let (b, m, _) = crate::asked::watch(1000, crate::asked::probe);
        (a, b, n, m)
    });
    // the watch itself: a call of each kind is seen, and answered differently
    let other = "true true true true true true true true";
    if alive.0 != "false false false false false false false true" || alive.1 != other || alive.2 < 8 || alive.3 < 8 {
        return c.event("watch not in effect");
    }
    let (label, f) = W[c.index as usize % W.len()];
    c.other_answers(label, f);
}

pub fn all() -> Vec<Prop> {
    let ex = strings::exhaustive_cases();
    let single = documents::single_count();
    vec![
        Prop {
            id: "C03",
            stages: vec![
                st("hostile-texts", "per textual type: generated, edited, spliced, extreme-number and very long texts through every conversion route; non-trivial: each distinct (type, text)", 8_000, 400_000, strings::hostile),
                st("hostile-trees", "per structure: heavily edited value trees through every reader and every operation on what is accepted, with allocation monitoring; non-trivial: distinct trees", 12_000, 600_000, documents::hostile_trees),
                st("hostile-bytes", "per structure: mutated, truncated and deeply nested text; non-trivial: distinct byte sequences", 12_000, 600_000, documents::hostile_bytes),
                st("operations", "the edit histories, conversions and queries of the other properties; only panics are judged; non-trivial: distinct inputs", 40_000, 2_000_000, operations),
                st("limited-process", "CPU set texts parsed in a process limited in memory and time", 3, 3, links::cpuset_range),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C04",
            stages: vec![
                st("routes-random", "per textual type: generated, edited and spliced texts compared over all ways in and out; non-trivial: accepted distinct (type, text)", 72_000, 800_000, strings::routes_random),
                st("routes-short", "every text of at most 2 characters over the type's alphabet; non-trivial: accepted", ex, ex, strings::routes_exhaustive2),
                st("routes-short-3", "every text of at most 3 characters over the type's alphabet; non-trivial: accepted", 0, ex, strings::routes_exhaustive3),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C05",
            stages: vec![
                st("grammar-random", "per textual type: generated, edited and spliced texts against the reference recognizer; non-trivial: distinct texts the rule decides", 40_000, 1_500_000, strings::grammar_random),
                st("grammar-boundaries", "per textual type: length limits and every ASCII (and some other) character at a position of a valid text", 4_000, 200_000, strings::grammar_boundaries),
                st("grammar-long", "per textual type: a part of a generated text over and over, to hundreds of characters or repetitions, at times 65536; non-trivial: distinct texts the rule decides", 4_000, 200_000, strings::grammar_long),
                st("grammar-world", "per textual type: each of a collection of real texts of every sort (versions, paths, addresses, quantities, references, options), in other cases, doubled and padded; around the allowed ones every single-character edit at one position", strings::world_cases(), 0, strings::grammar_world),
                st("grammar-world-edits", "the same with every single-character edit at every position", 0, strings::world_cases(), strings::grammar_world_edits),
                st("grammar-short", "every text of at most 3 characters over the type's alphabet", ex, ex, strings::grammar_exhaustive3),
                st("grammar-short-4", "every text of at most 4 characters over the type's alphabet", 0, ex, strings::grammar_exhaustive4),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C19",
            stages: vec![
                st("coherence", "per textual type: a base text, its edits, case variants and repeats; equality, ordering, hashing, text comparison and map lookups on all pairs; non-trivial: distinct text sets", 120_000, 2_000_000, strings::coherence),
                st("structured-equality", "per structure: a document, itself again, and with one field changed; non-trivial: distinct pairs", 32_000, 400_000, documents::structured_equality),
                st("hash-agreement", "per hashable structure: a document and six respellings (key order, extension order, path spelling, small edits); equality, hash, set and map membership; non-trivial: distinct pairs", 12_000, 600_000, documents::hash_agreement),
                st("image-parts", "names, tags, digests and images near each other, compared, hashed, sorted and compared with texts; non-trivial: distinct text sets", 12_000, 600_000, strings::image_parts),
                st("path-equality", "paths of any bytes compared with longer, shorter and other paths; non-trivial: distinct paths", 30_000, 300_000, built::raw_paths),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C06",
            stages: vec![
                st("image-history", "an image reference driven through a random history of setters next to a parts model; non-trivial: distinct (start, history)", 160_000, 3_000_000, models::image_history),
                st("image-parse", "texts composed of registry, path, tag and digest parts; non-trivial: distinct texts", 160_000, 3_000_000, models::image_parse),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C07",
            stages: vec![
                st("port-ranges", "port range texts, pairs and numbers against an interval model; non-trivial: distinct", 30_000, 2_000_000, models::port_ranges),
                st("short-ranges-history", "host/container range pairs through constructors, setters and iteration; non-trivial: distinct", 30_000, 2_000_000, models::short_ranges_history),
                st("short-port", "short port texts and their long forms; non-trivial: distinct", 30_000, 2_000_000, models::short_port),
                st("long-port", "long ports into short form and back; non-trivial: distinct", 30_000, 2_000_000, models::long_port),
                st("many", "hundreds of ports made short and long; non-trivial: distinct lists", 400, 8_000, parts::many_ports), st("iterators", "iterators of port ranges and ports driven in every way; non-trivial: distinct", 20_000, 400_000, parts::port_iterators),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C08",
            stages: vec![
                st("short-volume", "short volume texts into long mounts and back; non-trivial: distinct", 480_000, 3_000_000, models::short_volume),
                st("long-mount", "long mounts into short syntax and back; non-trivial: distinct", 480_000, 3_000_000, models::long_mount),
                st("many", "hundreds (at times 65536) of volumes made short and long; non-trivial: distinct lists", 400, 8_000, parts::many_mounts), st("iterators", "iterators of volumes driven in every way; non-trivial: distinct", 20_000, 400_000, parts::mount_iterators),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C14",
            stages: vec![
                st("durations", "durations and duration texts against an integer model; non-trivial: distinct", 240_000, 4_000_000, models::durations),
                st("duration-fields", "durations in every field that takes one; non-trivial: distinct", 80_000, 1_000_000, models::duration_fields),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C16",
            stages: vec![
                st("scalars", "scalars through every conversion of values, numbers and string-or-number; non-trivial: distinct", 360_000, 3_000_000, models::scalars),
                st("lists-and-maps", "lists and maps converted into each other; non-trivial: distinct", 360_000, 3_000_000, models::lists_and_maps),
                st("many", "lists and mappings of hundreds (at times 65536) of entries made into each other; non-trivial: distinct lists", 800, 8_000, parts::many_items),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C17",
            stages: vec![
                st("bounded-integers", "limits, percents, weights, scores and cpusets at and around their bounds; non-trivial: distinct", 80_000, 3_000_000, models::bounded_integers),
                st("byte-values", "byte values with units against an integer model; non-trivial: distinct", 80_000, 3_000_000, models::byte_values),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C22",
            stages: vec![
                st("platforms", "every operating system, architecture and variant combination", 1, 1, models::platforms),
                st("platform-routes", "every supported text of a platform or architecture and its near misses, given to each of the 18 types by every route; non-trivial: distinct texts", 90, 900, models::platform_routes),
                st("platform-texts", "platform texts against a table; non-trivial: distinct", 120_000, 3_000_000, models::platform_texts),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C27",
            stages: vec![
                st("numbers", "numbers at and around the limits of every type through every numeric conversion and comparison; non-trivial: distinct numbers", 150_000, 1_500_000, built::numbers),
                st("ports", "port numbers and ranges into every port type, and compared with standard ranges; non-trivial: distinct ranges", 100_000, 1_000_000, built::ports),
                st("mounts", "paths, names and options into every mount, source and path type; non-trivial: distinct parts", 100_000, 1_000_000, built::mounts),
                st("defaults", "the default of every type that has one", 1, 1, built::defaults),
                st("others", "the remaining constructors and conversions; non-trivial: distinct parts", 80_000, 800_000, built::others),
                st("raw-paths", "paths of any bytes through every type that takes a path; non-trivial: distinct paths", 60_000, 600_000, built::raw_paths),
                st("wrapped", "texts and names that read like keywords inside every choice that holds one, and out again; non-trivial: distinct texts", 60_000, 600_000, built::wrapped),
                st("routes", "per textual type: texts through every conversion in and out; non-trivial: accepted distinct (type, text)", 24_000, 400_000, strings::routes_random),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C26",
            stages: vec![
                st("rejections", "40 texts per case for one type, generated, edited and spliced; non-trivial: distinct rejected texts", 80_000, 600_000, errors::rejections),
                st("rejected-numbers", "numbers and values out of range, alone and in documents; non-trivial: distinct", 100_000, 800_000, errors::rejected_numbers),
                st("rejected-documents", "20 texts per case at one place of a document; non-trivial: distinct rejected (place, text)", 30_000, 300_000, errors::rejected_documents),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C24",
            stages: vec![
                st("text-parts", "per structured text: generated, edited and spliced texts; every part, variant and query of the parsed value against the text; non-trivial: distinct accepted texts", 91_000, 26 * 60_000, parts::text_parts),
                st("words", "per structured text: special words with every prefix and suffix of the formats; non-trivial: distinct accepted texts", parts::looks(), parts::looks(), parts::word_parts),
                st("choices", "every choice of every closed set, read and written, and near-misses", 1, 1, parts::closed_choices),
                st("resources", "external and own networks, volumes, configs and secrets; non-trivial: distinct", 40_000, 400_000, parts::resources),
                st("extra-hosts", "extra hosts as lists and maps with both separators; non-trivial: distinct", 40_000, 400_000, parts::extra_hosts),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C25",
            stages: vec![
                st("absolute-paths", "an absolute path through a random history of pushes and pops next to a model; non-trivial: distinct histories", 150_000, 2_000_000, parts::absolute_paths),
                st("host-paths", "the same for host paths; non-trivial: distinct histories", 150_000, 2_000_000, parts::host_paths),
                st("raw-paths", "paths of any bytes through histories of pushes and pops; non-trivial: distinct paths", 60_000, 600_000, built::raw_paths),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C01",
            stages: vec![
                st("round-trips", "generated documents of every structure through value, YAML text and JSON; non-trivial: distinct accepted documents", 16_000, 500_000, documents::round_trips),
                st("round-trips-edited", "the same for randomly edited trees that are still accepted; non-trivial: distinct accepted trees", 30_000, 800_000, documents::round_trips_edited),
                st("many-entries", "a document of hundreds (at times 65536) of entries in one place, for each place that takes any number: what holds of a few entries must hold of many; non-trivial: distinct (place, size)", growth::places() * 3, growth::places() * 30, growth::many_same),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C02",
            stages: vec![
                st("written", "generated documents next to the tree they must be written as, and that tree itself; non-trivial: distinct documents", 96_000, 500_000, documents::written),
                st("single-fields", "every field of every structure alone, in random spellings; non-trivial: distinct documents", 240 * single, 1_500 * single, documents::written_single),
                st("many-entries", "a document of hundreds (at times 65536) of entries in one place: all of them come back; non-trivial: distinct (place, size)", growth::places() * 3, growth::places() * 30, growth::many_kept),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C09",
            stages: vec![st("short-long", "long values with nothing, one thing or many things set, and short values; non-trivial: distinct", 1_440_000, 2_000_000, links::short_long), st("many", "dependencies, service networks and env files of hundreds (at times 65536) of entries made short and long; non-trivial: distinct lists", 400, 8_000, parts::many_short), st("iterators", "iterators of dependencies and service networks driven in every way; non-trivial: distinct", 20_000, 400_000, parts::short_iterators)],
            assumptions: &[],
        },
        Prop {
            id: "C10",
            stages: vec![st("references", "services with references in short and long form over a small name pool, with any part of the pool defined; non-trivial: distinct documents", 120_000, 1_000_000, links::references), st("many-references", "2 to 1200 (at times 65536) services that share a resource or use their own, with one or none left undefined; non-trivial: distinct documents", 600, 6_000, growth::many_references)],
            assumptions: &[],
        },
        Prop {
            id: "C11",
            stages: vec![
                st("alternatives", "a valid document and the same with one rule broken somewhere, keys shuffled; non-trivial: distinct broken documents", 75_000, 1_000_000, documents::alternatives),
                st("null-alternatives", "exclusive options given as null next to the one used; non-trivial: distinct documents", 20_000, 200_000, documents::null_alternatives),
                st("word-alternatives", "structures with alternatives where one text is a word of the dictionary, each word in turn; non-trivial: distinct broken documents", 30_000, 600_000, documents::word_alternatives),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C12",
            stages: vec![
                st("near-keys", "every key of every structure misspelt in every known way, with a value the key would take; non-trivial: all", 60_000, 600_000, documents::near_keys),
                st("unknown-keys", "a key that is not part of the structure at a random place of a document; non-trivial: distinct documents", 90_000, 1_000_000, documents::unknown_keys),
                st("extension-values", "documents with extensions wherever allowed; non-trivial: distinct documents", 36_000, 300_000, documents::extension_values),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C13",
            stages: vec![
                st("merges", "documents whose mappings are split into nested merge keys with decoys, resolved by hand; non-trivial: distinct documents", 24_000, 300_000, links::merges),
                st("unmerged", "`<<` in extension values with merging off; non-trivial: distinct", 4_000, 50_000, links::unmerged),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C15",
            stages: vec![
                st("repeated", "accepted and rejected documents read and written repeatedly, with other work and threads in between; non-trivial: distinct documents", 4_000, 200_000, documents::repeated),
                st("many-times", "small accepted and rejected documents read and written 700 times on one thread; non-trivial: distinct documents", 1_500, 60_000, documents::many_times),
                st("field-order", "relative order of every pair of written fields over all documents; non-trivial: distinct documents", 6_000, 300_000, documents::field_order),
                st("processes", "400 documents per case digested in this and four other processes, among them one without an environment and one where files and variables of all names in the documents exist; non-trivial: distinct (documents, process)", 4, 60, documents::processes),
                st("other-answers", "the workloads of the other properties while every call for a variable, file, working directory, clock or process number is watched; one that asks is run again with other answers; non-trivial: distinct inputs", 12_000, 600_000, other_answers),
                st("text-order", "cache locations with many options in any order, parsed, taken apart and written; non-trivial: distinct texts", 6_000, 300_000, parts::text_order),
                st("conversion-order", "lists and mappings in any order through every conversion, made twice; non-trivial: distinct key orders", 6_000, 300_000, parts::conversion_order),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C18",
            stages: vec![
                st("entry-points", "generated documents in block, flow and anchored text, JSON and as values through every reader; non-trivial: distinct documents", 10_000, 250_000, documents::entry_points),
                st("entry-points-edited", "edited trees: readers of one form agree; non-trivial: distinct trees", 16_000, 400_000, documents::entry_points_edited),
                st("streams", "documents in streams with byte order marks, directives, comments and line endings of all kinds, and streams that are no single document, through every text reader; non-trivial: distinct documents", 12_000, 300_000, documents::streams),
                st("many-entries", "a document of hundreds (at times 65536) of entries in one place through every reader; non-trivial: distinct (place, size)", growth::places() * 2, growth::places() * 30, growth::many_readers),
                st("kinds", "every kind of data of the serde model presented to short-or-long options; non-trivial: distinct data", 40_000, 1_000_000, kinds::kinds),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C20",
            stages: vec![
                st("defaults-spelled", "documents with defaults and nulls spelled out against the same without; non-trivial: distinct documents", 64_000, 500_000, documents::defaults_spelled),
                st("single-fields", "every field alone against the empty structure; non-trivial: distinct documents", 240 * single, 1_000 * single, documents::single_fields),
                st("hollow-structures", "structures of nothing but empty structures, and the same with one value somewhere; non-trivial: distinct (type, document)", 8_000, 400_000, documents::hollow_structures),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C21",
            stages: vec![st("assigned-fields", "every public field assigned next to a document that has its key; non-trivial: distinct documents", 320 * single, 1_500 * single, documents::assigned_fields)],
            assumptions: &[],
        },
        Prop {
            id: "C28",
            stages: vec![st("repeated-options", "an option of one mapping of a generated document given a second time, anywhere in that mapping, read through every text reader; non-trivial: distinct texts", 48_000, 600_000, documents::repeated_options)],
            assumptions: &[],
        },
        Prop {
            id: "C29",
            stages: vec![st("written", "accepted documents and structures written to a format of our own, human-readable or not, with a checker of serde's protocol, compared with YAML and JSON; non-trivial: distinct documents", 40_000, 1_000_000, formats::written)],
            assumptions: &[],
        },
        Prop {
            id: "C30",
            stages: vec![
                st("failing-writer", "accepted documents written to a data format, YAML and JSON streams failing at the first, the last and other steps; non-trivial: distinct documents", 8_000, 200_000, formats::failing_writer),
                st("failing-reader", "accepted and rejected documents read from a data format failing at the first, the last and other steps; non-trivial: distinct documents", 16_000, 400_000, formats::failing_reader),
                st("failing-stream", "YAML and JSON streams cut short by a failure, interrupted, or delivered in small pieces; non-trivial: distinct documents", 4_000, 100_000, formats::failing_stream),
                st("failing-formatter", "textual values formatted into too little room; non-trivial: distinct texts", 12_000, 300_000, formats::failing_formatter),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C31",
            stages: vec![
                st("documents", "a document of some 800 entries in one place and one of sixteen times as many, for each place that takes any number; every operation measured on both; non-trivial: distinct (place, size)", growth::places(), growth::places() * 4, growth::documents),
                st("texts", "per textual type: a text of some 8000 characters, a part of it over and over, and one of sixteen times as many; non-trivial: distinct texts", 400, 8_000, growth::texts),
            ],
            assumptions: &[],
        },
        Prop {
            id: "C23",
            stages: vec![st("permutations", "accepted and rejected documents with the keys of their mappings shuffled; non-trivial: distinct documents", 18_000, 300_000, documents::permutations), st("many-entries", "a document of hundreds (at times 65536) of entries in one place, and the same with the keys of every mapping in the opposite order; non-trivial: distinct (place, size)", growth::places() * 3, growth::places() * 30, growth::many_keys)],
            assumptions: &[],
        },
    ]
}

pub fn helper(args: &[String]) {
    links::helper(args);
}
