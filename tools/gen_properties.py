#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Serializing and reparsing a document gives an equal value",
  "For every Compose document (or service, network, volume, config, secret) that parses, serializing the parsed value and parsing the result again succeeds and gives a value equal to the first, through YAML text, YAML values and JSON alike, and serializing that second value gives the same output as the first serialization (a map written as `{}` where the option also takes a list counts as leaving the option out).",
  ["inputs"], "all accepted documents, in every spelling the format allows (short and long syntax, list and map forms, aliases, numbers or strings)",
  "The suite round-trips one large fixture and a few literals per type; the claim is about every combination of fields, forms and scalar spellings.",
  ["src/lib.rs", "src/service.rs", "src/common.rs", "src/common/short_or_long.rs", "src/serde.rs", "src/service/*.rs", "src/network.rs", "src/config.rs", "src/secret.rs", "src/volume.rs"],
  [("derived and manual Serialize/Deserialize impls", "src/**"), ("skip_serializing_if and default pairs", "src/**")],
  ["serde_yaml::from_str / to_string", "serde_yaml::from_value / to_value", "serde_json::from_str / to_string"])

p("C02", "Nothing written in a document is lost, altered or reordered",
  "Parsing a document and serializing it reproduces every key, list element and value in its canonical spelling and in the order written, with only keys explicitly set to their default, empty collections and nulls left out. A document already in canonical spelling is reproduced exactly; each documented alternative spelling (single value for list, duration or byte-size string variants, deprecated permissive forms) serializes to the canonical spelling of the same meaning.",
  ["inputs"], "all documents built from the Compose field set, in canonical or alternative spellings",
  "Tests compare a few literal snippets; a field dropped, renamed on output only, or normalised wrongly for particular values is invisible to them.",
  ["src/service.rs", "src/service/build.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs", "src/service/healthcheck.rs", "src/service/network_config.rs", "src/service/ports.rs", "src/service/volumes/mount.rs", "src/network.rs", "src/serde.rs"],
  [("Serialize impls and serde attributes", "src/**"), ("normalisation in constructors", "src/duration.rs, src/service/byte_value.rs, src/service/ports.rs")],
  ["serde_yaml::to_value(parsed)", "serde_yaml::to_string(parsed)"])

p("C03", "No input or call sequence makes the library panic, abort or hang",
  "Parsing any text, bytes or value tree into any public type, and calling any public operation on values so obtained (conversion, mutation, formatting, validation, comparison), returns a value or an error: it never panics, overflows, takes memory out of proportion to the input, or fails to terminate.",
  ["inputs", "histories"], "arbitrary strings, byte sequences, YAML/JSON trees and sequences of public calls, with integer-overflow checks and debug assertions on",
  "Tests exercise well-formed values near the documented examples; integer extremes, odd separators, hostile structure and mutation sequences are unbounded.",
  ["src/duration.rs", "src/service/ports.rs", "src/service/image.rs", "src/service/cpuset.rs", "src/service/byte_value.rs", "src/service/user.rs", "src/service/device.rs", "src/service/volumes.rs", "src/serde.rs"],
  [("checked arithmetic and validated indices", "src/duration.rs, src/service/image.rs, src/service/ports.rs"), ("error returns in parsers", "src/**")],
  ["return value of every public parse/convert/mutate function"],
  [("registry_end / tag_or_digest_start", "byte offsets into the image string", "src/service/image.rs")])

p("C04", "String-syntax values round-trip and all conversion routes agree",
  "For every value with a textual syntax (identifiers, names, hosts, images, ports, mounts, devices, users, caches, drivers, modes, limits, byte sizes, MAC addresses and so on), formatting an accepted value and parsing the text again gives an equal value. All ways in (parse, TryFrom of borrowed and owned strings, deserialization) accept the same strings with equal results, and all ways out (Display, as_str/AsRef, conversion to String, serialization) give the same text.",
  ["inputs"], "all strings, over every textual type of the public API",
  "Tests check one or two literals per type and usually one route; the routes are separately written or generated impls that can drift apart for particular strings.",
  ["src/common/keys.rs", "src/name.rs", "src/serde.rs", "compose_spec_macros/src/serde.rs", "src/service/user.rs", "src/service/device.rs", "src/service/ports.rs", "src/service/volumes.rs", "src/service/build/*.rs", "src/service/ulimit.rs", "src/service/network_config.rs", "src/service.rs", "src/network.rs"],
  [("FromStr/TryFrom/Display/Serialize impls", "src/**"), ("impl_try_from!/key_impls! style macros", "src/common.rs, src/common/keys.rs")],
  ["T::from_str, T::try_from, serde_yaml::from_str", "to_string, as_ref, String::from, serde_yaml::to_value"])

p("C05", "Constrained values are accepted exactly when they match their grammar",
  "A string is accepted as an identifier, map key, extension key, project name, hostname, user or group name, ulimit name, image name/tag/digest, port or port range, protocol, absolute or host path, device, cgroup rule, MAC address, link, sysctl-like key or mode if and only if it satisfies the documented rule for that type; in particular empty strings, forbidden characters, bad separators, wrong prefixes and excessive lengths are always rejected (a leading plus sign of a number is left open).",
  ["inputs"], "all strings over full Unicode, including boundary lengths",
  "Property tests exist only for a few of the grammars and generate from the accepting side; near-misses and boundaries (length limits, separator runs, start/end characters, non-ASCII lookalikes) are sampled by a handful of literals.",
  ["src/common/keys.rs", "src/name.rs", "src/service/hostname.rs", "src/service/user.rs", "src/service/ulimit.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/ports.rs", "src/service/device.rs", "src/service/volumes.rs", "src/service/network_config.rs", "src/service/expose.rs"],
  [("character/length validation loops", "src/common/keys.rs, src/name.rs, src/service/hostname.rs, src/service/user.rs, src/service/image/*.rs")],
  ["constructor results Ok/Err"])

p("C06", "Image references stay well-formed and consistent under every edit",
  "An image built by parsing, from parts, or by any sequence of edits of its name, registry, tag and digest always equals the image obtained by parsing its own text, and its registry, name, tag and digest accessors are exactly the corresponding parts of that text. Each edit changes only the part it names: setting a tag removes a digest and vice versa, clearing removes the separator, and other parts are untouched (a registry is a first path component with a dot or port, applied to names that leave a path after it).",
  ["histories", "inputs"], "all sequences of construction and set/clear operations with arbitrary valid parts (registries applied to images that have a path after the registry)",
  "Tests apply each setter at most once or twice on one image; offsets only go wrong for particular length relations or operation orders.",
  ["src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs"],
  [("offset maintenance", "src/service/image.rs: set_registry, set_name, set_tag_or_digest, update_tag_or_digest_start")],
  ["Image accessors after every operation"],
  [("registry_end", "end of the registry in the text", "src/service/image.rs"), ("tag_or_digest_start", "start of tag or digest in the text", "src/service/image.rs")])

p("C07", "Port mappings mean the same in short and long form",
  "Expanding a short port (host IP, host range, container range, protocol) into long form yields one entry per published/target pair, in order, with the same host IP, protocol and numbers, and exactly the entries the syntax denotes; a long port converts back to short form only if that loses nothing, and then expands to the same entry. Ranges are never reversed, mapped ranges always have equal sizes, and range arithmetic and iteration agree with the set of ports the range denotes.",
  ["inputs"], "all port strings and long port records, including single ports, full-width ranges, IPv4/IPv6 host addresses and all protocols",
  "Tests check a few literals; boundary ports (0, 65535), reversed ranges, size mismatches and the bracketed-IPv6 forms combine in ways literals do not cover.",
  ["src/service/ports.rs", "src/service/expose.rs"],
  [("ShortPort/ShortRanges parsing and into_long", "src/service/ports.rs"), ("Range constructors and iterators", "src/service/ports.rs")],
  ["ShortPort::into_long_iter / Port::as_short / into_short", "Range accessors"])

p("C08", "Volume mounts mean the same in short and long form",
  "Parsing a short volume string splits it into source, container path and options exactly as written; its long form mounts the same source (host path or named volume) at the same container path with the same access mode and SELinux relabelling; and a long mount converts to short form only if nothing is lost, in which case converting back gives an equal mount up to the bind options every short form implies. The set of named volumes reported for a service is exactly those its mounts refer to.",
  ["inputs"], "all short volume strings and long mounts of every type with any subset of options",
  "Tests cover a few literals of bind and volume mounts; option subsets, options in other orders and mounts without source are not combined.",
  ["src/service/volumes.rs", "src/service/volumes/mount.rs"],
  [("ShortVolume parse/display", "src/service/volumes.rs"), ("into_long / into_short", "src/service/volumes.rs, src/service/volumes/mount.rs")],
  ["ShortVolume::into_long, Mount::into_short, named_volumes_iter"])

p("C09", "Short and long syntax agree for every other option that has both",
  "For builds, includes, env files, dependencies, configs, secrets, service networks and ulimits, the long form created from a short value is the long value with only that option set; a long value is reported as expressible in short form exactly when every other option has its default; and the two spellings of one meaning convert to equal long values, a list in its order.",
  ["inputs"], "all short values and all subsets of long options",
  "Tests cover the derive macro on toy structs and one literal per real type; a field wrongly left out of the check loses data only for that field.",
  ["compose_spec_macros/src/as_short.rs", "src/common/short_or_long.rs", "src/include.rs", "src/service.rs", "src/service/env_file.rs", "src/service/config_or_secret.rs", "src/service/build.rs", "src/service/ulimit.rs", "src/service/network_config.rs"],
  [("AsShort/AsShortIter derive and impls", "compose_spec_macros/src/as_short.rs, src/common/short_or_long.rs")],
  ["AsShort::as_short, AsShortIter::as_short_iter, From<Short>, ShortOrLong::into_long / into_short / as_long"])

p("C10", "Reference validation reports exactly the undefined resources",
  "Validation succeeds if and only if every network, config and secret that a service lists, in short or long form, and every named volume used by more than one service, is defined at the top level; a volume that only one service uses needs no definition. A failure names the kind and name of a resource that really is used without a definition, the top-level field that lacks it and, except for volumes (of which it says that multiple services use them), a service using it.",
  ["inputs"], "all combinations of services, references in short or long form and top-level definitions",
  "Tests have a small number of two-service documents; sharing patterns across services, repeated use in one service and mixes of resource kinds are unbounded.",
  ["src/lib.rs", "src/service.rs", "src/service/volumes.rs", "src/service/network_config.rs", "src/service/config_or_secret.rs"],
  [("validate_* methods", "src/lib.rs, src/service.rs"), ("named_volumes_iter", "src/service/volumes.rs")],
  ["Compose::validate_all/_networks/_volumes/_configs/_secrets"])

p("C11", "Conflicting or missing alternatives are rejected, valid ones accepted",
  "Where options exclude each other or exactly one of several must be present (network_mode and networks; dockerfile and dockerfile_inline; config and secret sources; credential spec sources; external resources with other options; disabled healthchecks with other options; mount types and their own option groups), a document is accepted if and only if it respects the rule, whatever the other options and the order of keys.",
  ["inputs"], "all subsets of each option group together with arbitrary other options, in any key order",
  "Tests try the two-option conflicts in one order; other subsets, orders, and nesting positions are not tried.",
  ["src/service/network_config.rs", "src/service/build/dockerfile.rs", "src/config.rs", "src/secret.rs", "src/service/credential_spec.rs", "src/common.rs", "src/service/healthcheck.rs", "src/service/volumes/mount.rs", "src/network.rs"],
  [("hand-written flattened visitors and TryFrom impls", "src/serde.rs, src/service/network_config.rs, src/service/build/dockerfile.rs, src/config.rs, src/secret.rs, src/service/healthcheck.rs")],
  ["Ok/Err of deserialization and the variant produced"])

p("C12", "Extensions are preserved everywhere and unknown keys are not absorbed",
  "In every mapping that supports extensions, a key starting with 'x-' is accepted with any YAML value and comes back unchanged in value and relative order, and any other key that is not part of the specification is rejected rather than kept or reinterpreted; extension keys never leak into neighbouring fields or get lost next to flattened options.",
  ["inputs"], "all positions that allow extensions, all extension values (nested mappings, sequences, tags-free scalars) and all near-miss key names",
  "Tests put a single extension into a few structures; the many hand-written flattened visitors are each a separate place to lose or admit keys.",
  ["src/common/keys.rs", "src/common.rs", "src/serde.rs", "src/service.rs", "src/service/*.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs"],
  [("#[serde(flatten)] extensions", "src/**"), ("ExtensionKey validation", "src/common/keys.rs")],
  ["extensions fields, serialized output, deserialization errors"])

p("C13", "Merge keys are applied as YAML merge semantics, and only when asked",
  "With merging enabled, parsing a document gives the same result as parsing the document with every '<<' key replaced by hand: explicit keys win over merged ones and keep their order before them, earlier merge sources win over later ones, nested and repeated use of anchors works, and invalid merge values are errors. With merging disabled (the default) '<<' has no merge meaning, and documents without '<<' parse identically either way.",
  ["inputs", "configurations"], "all documents with anchors, aliases and merge keys at any position, both option settings, every input kind (string, reader, bytes, value)",
  "The suite has one merge example; precedence, sequences of maps, nesting and the four entry points are separate paths.",
  ["src/options.rs"],
  [("Options::apply_merge and from_yaml_*", "src/options.rs")],
  ["Compose::options().apply_merge(_).from_yaml_str/reader/slice/value"])

p("C14", "Durations convert exactly in both directions",
  "A duration string is the exact sum of its number-unit parts in the documented units, accepted in any order or combination the syntax allows, and rejected if malformed or too large to represent; a duration formats to a string that parses back to the same duration truncated to whole microseconds, with each unit at most its natural maximum and largest first. Fields given in integers are read as microseconds or seconds as documented and written so that they read back equal.",
  ["inputs"], "all duration strings and all durations from zero to the maximum",
  "Tests check a list of literals; overflow boundaries, long digit runs, repeated units and carries between units are not covered.",
  ["src/duration.rs", "src/serde/duration_option.rs", "src/serde/duration_us_option.rs", "src/service/healthcheck.rs", "src/service/deploy.rs"],
  [("duration::parse / to_string", "src/duration.rs")],
  ["duration::parse, duration::to_string, duration fields of services, healthchecks and deploy configs"])

p("C15", "Output is deterministic and keeps document order",
  "Parsing the same document any number of times, in the same or different processes, gives equal values and byte-identical serialized output, and mappings and lists are written in the order of the document (with structure fields in their fixed order). Hash seeds, addresses, previous work, environment variables, the working directory and existing files never influence a result, an accepted/rejected decision or an error message.",
  ["inputs", "histories"], "all documents, repeated in one process and across processes with different hash seeds",
  "Each test parses once and compares sets; nondeterminism needs many keys and many runs to show.",
  ["src/common.rs", "src/lib.rs", "src/service.rs", "src/serde.rs"],
  [("IndexMap/IndexSet fields instead of HashMap", "src/**")],
  ["serialized bytes over repeated runs and processes"])

p("C16", "Scalars, lists and maps convert without changing their meaning",
  "A scalar keeps its kind and exact value (string, integer of either sign, float, bool) through parsing and serialization (non-negative integers being unsigned), displays as text of that value, and converts between integer types if and only if it is in range and to a float only without loss, with no float becoming an integer. The list form of a map option ('KEY=VALUE', bare 'KEY') denotes the same map as the map form, its values read as scalars and a missing value as null; an item-or-list accepts both forms with the documented element order, and sets keep the first of duplicate elements.",
  ["inputs"], "all scalars including 64-bit extremes, signed zero, infinities and numeric-looking strings; all lists and maps of them",
  "Tests check a few literals per variant; extremes, mixed lists and duplicate keys are not covered.",
  ["src/common.rs", "src/serde.rs", "src/service/build/context.rs", "src/service/build.rs"],
  [("Value/Number/StringOrNumber/ListOrMap/ItemOrList impls", "src/common.rs")],
  ["Value::parse, From/TryFrom impls, ListOrMap::into_map/into_list, serialization"])

p("C17", "Resource quantities are read and written exactly",
  "Byte sizes keep their number and unit, accept exactly the documented unit spellings, and are the exact number times the power of 1000 of the unit or reported as not fitting; the unlimited value (-1) and numeric limits are told apart and preserved; CPU sets are exactly the CPUs listed in any mix of single numbers and ascending ranges; CPU counts, percentages, weights, swappiness and priorities accept exactly their documented ranges, given as number or string where both are allowed.",
  ["inputs"], "all size strings and integers, all limit values, all cpuset strings of bounded span, all numeric field values",
  "Tests check one literal per unit; overflow boundaries, alternative unit spellings, overlapping ranges and range limits of each field are not covered.",
  ["src/service/byte_value.rs", "src/service/limit.rs", "src/service/cpuset.rs", "src/service/blkio_config.rs", "src/service.rs", "src/service/deploy/resources.rs", "src/service/ulimit.rs"],
  [("ByteValue parse/display, Limit, CpuSet, Percent, Weight, Cpus", "src/service/*.rs")],
  ["FromStr/Display/serde of each quantity and the service fields holding them"])

p("C18", "All input formats and entry points read a document the same way",
  "The same document gives equal values, or is rejected, whether read from a YAML string, bytes, a reader or a parsed YAML value, directly or through the parse options, in block or flow style, with or without anchors and aliases, or as JSON (texts being written as strings), or handed over by another serde data format with borrowed, transient or owned strings and integers of any width.",
  ["inputs", "configurations"], "all documents with properly typed scalars, all entry points and renderings",
  "Tests read YAML text in one style only; many visitors are written by hand and depend on how the deserializer presents a value (borrowed or owned strings, signed or unsigned integers, unit or none).",
  ["src/options.rs", "src/serde.rs", "src/serde/*.rs", "src/service/*.rs", "src/common.rs"],
  [("hand-written Visitor impls", "src/serde.rs, src/service.rs, src/common.rs, src/service/ulimit.rs, src/service/byte_value.rs"), ("Options::from_yaml_*", "src/options.rs")],
  ["values from serde_yaml::from_str/from_slice/from_reader/from_value and serde_json::from_str/from_value"])

p("C19", "Equality, ordering, hashing and text lookups are coherent",
  "For every key-like or text-backed value, equality, ordering and hashing agree with each other and with the borrowed text, so that maps and sets keyed by such values find an entry by value or by string exactly when the texts are equal, and comparing with a string equals comparing the text; values that differ in any observable part are never equal (paths compare by component, user-named mappings without order).",
  ["inputs"], "all pairs and triples of values of each type",
  "Tests compare equal literals; hash/equality mismatches need pairs constructed by different routes.",
  ["src/common/keys.rs", "src/service/image.rs", "src/service/image/*.rs", "src/name.rs", "src/service/hostname.rs", "src/service/user.rs", "src/service/volumes.rs"],
  [("manual PartialEq/Ord/Hash/Borrow impls", "src/service/image.rs, src/common.rs, src/common/keys.rs")],
  ["==, cmp, hash, IndexMap/HashMap/BTreeMap lookups"])

p("C20", "Defaults and emptiness are consistent",
  "Omitting an option and giving it its documented default yield equal values; an 'is empty' query is true exactly when nothing but empty structures would be written, and setting any single option to a non-default value makes the value non-empty and appear in the output.",
  ["inputs"], "all options of all structures, singly and in combinations",
  "Tests check default round trips of a few types; every field is a separate skip/default/is_empty decision.",
  ["src/service.rs", "src/service/build.rs", "src/service/deploy.rs", "src/service/healthcheck.rs", "src/service/blkio_config.rs", "src/network.rs", "src/volume.rs", "compose_spec_macros/src/default.rs"],
  [("is_empty methods, Default derive, skip_serializing_if", "src/**, compose_spec_macros/src/default.rs")],
  ["is_empty(), Default::default(), serialized output"])

p("C21", "Each specification key reads into and writes from its own field",
  "Every key of the Compose specification that the library supports sets exactly the public field documented for it and no other, at every level (service, build, deploy, healthcheck, network, volume, mounts and so on), and a value assigned to a public field by a program is serialized under that key, so that documents built programmatically parse back to what was built.",
  ["inputs", "programs"], "every public field of every structure with arbitrary valid values, read and written",
  "A full-document round trip cannot see two keys swapped consistently, nor a key with a wrong name; tests read almost no fields back.",
  ["src/service.rs", "src/service/*.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs", "src/lib.rs"],
  [("field names and serde rename attributes", "src/**")],
  ["public struct fields after parsing; serialized keys after construction"])

p("C22", "Platforms parse, print and decompose consistently",
  "For every supported operating system, architecture and variant, the platform's text is os[/arch[/variant]], parsing is the inverse of printing, the os, architecture and variant reported are those in the text, building a platform from those parts gives the same platform, and unsupported combinations are rejected by every route.",
  ["inputs"], "all combinations of operating system, architecture and variant names, and near-misses",
  "The table is generated by a macro and tests touch a handful of platforms.",
  ["src/service/platform.rs", "compose_spec_macros/src/platforms.rs"],
  [("platforms! macro output", "compose_spec_macros/src/platforms.rs")],
  ["Platform/Os/Arch FromStr, Display, as_* and conversion functions"])

p("C23", "The order of mapping keys never changes what a document means",
  "Permuting the keys of any mapping in a document, at any level, does not change whether it is accepted and gives a value equal to the original's up to the order of entries in user-named mappings.",
  ["inputs"], "all documents and all key permutations at all levels",
  "Tests write keys in one conventional order; hand-written visitors process keys one at a time and can depend on which arrives first.",
  ["src/service/healthcheck.rs", "src/service/network_config.rs", "src/service/build/dockerfile.rs", "src/common.rs", "src/config.rs", "src/secret.rs", "src/serde.rs", "src/service/volumes/mount.rs"],
  [("hand-written map visitors and flattened enums", "src/service/healthcheck.rs, src/serde.rs, src/common.rs")],
  ["deserialization result of permuted documents"])

p("C24", "Structured texts decompose into exactly the parts they spell",
  "When a structured text (port, expose, device, host mapping, SSH key, build context, cache option, CPU set, hostname, user, namespace mode, link, secret or config source, resource and so on) is accepted, the public fields, variants and queries of the parsed value are exactly the parts the documentation assigns to the pieces of that text, and each word or kind has its own variant.",
  ["inputs"], "all accepted texts of every structured textual type",
  "A parser and a printer that agree on the wrong part pass every round trip; tests read the parts of one or two texts per type.",
  ["src/service/ports.rs", "src/service/expose.rs", "src/service/device.rs", "src/service/build/context.rs", "src/service/build/cache.rs", "src/service/build/ssh_auth.rs", "src/service/cpuset.rs", "src/service/user.rs", "src/service/deploy/resources.rs", "src/service/network_config.rs", "src/service.rs"],
  [("FromStr / parse functions and their accessors", "src/service/**")],
  ["public fields, variants and query methods of parsed values"])

p("C25", "Constrained path values stay valid under every edit",
  "A value of a type restricted to a form of path (absolute path, host path) keeps that form after every sequence of the public operations on it; an operation that would break the form is refused and leaves the value unchanged; an operation that is allowed does exactly what the same operation does on an ordinary path.",
  ["inputs", "histories"], "all sequences of construction, push, pop, set_file_name, set_extension, conversions and the like on restricted paths",
  "The restriction is only as strong as the weakest mutator, and tests edit almost no path.",
  ["src/service/volumes.rs", "src/service/volumes/mount.rs"],
  [("AbsolutePath and HostPath constructors and mutators", "src/service/volumes.rs")],
  ["as_path(), push/pop/set_* results, conversion results"])

p("C26", "A rejection names its cause, and what it names is true",
  "When a textual value is rejected, every reader of a document reports the value's own parse error followed by all of its underlying causes, wherever in the document the value stands; and what the error states about the text (the character, part, option, size or bound it names, the rule it says is broken) is true of the rejected text.",
  ["inputs"], "all rejected texts of every textual type, at every place a document can hold them, through every reader",
  "Tests compare a few error values; nothing checks that the message survives the deserializers, or that the part it blames is the wrong one.",
  ["src/serde.rs", "src/serde/display_from_str_option.rs", "src/common/keys.rs", "src/name.rs", "src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/ports.rs", "src/service/device.rs", "src/service/volumes.rs", "src/service/user.rs", "src/service/hostname.rs", "src/service/cpuset.rs", "src/service/byte_value.rs"],
  [("error enums, FromStr implementations, error_chain", "src/serde.rs, src/**")],
  ["FromStr errors and their source() chains, messages of the deserializers"])

p("C27", "Constructors and conversions keep exactly what they are given",
  "Creating a value from its parts, from another of the library's types or from a standard type keeps every part and leaves everything else at its documented default; it succeeds exactly when the parts satisfy the type's rule; converting back gives the original; queries report the parts; and comparisons with values of standard types hold exactly when the converted values are equal, or so ordered.",
  ["inputs"], "all parts, for every public constructor, From/TryFrom implementation and mixed comparison",
  "Most conversions have no test, and programs that build documents instead of reading them depend on nothing else.",
  ["src/service/ports.rs", "src/service/volumes.rs", "src/service/volumes/mount.rs", "src/service/blkio_config.rs", "src/service/byte_value.rs", "src/service/limit.rs", "src/service/deploy/resources.rs", "src/service/build.rs", "src/service/config_or_secret.rs", "src/service/env_file.rs", "src/service/healthcheck.rs", "src/common.rs", "src/common/short_or_long.rs", "src/config.rs", "src/secret.rs", "src/include.rs"],
  [("From/TryFrom implementations and new functions", "src/**")],
  ["public fields and variants of the created values, accessors, ==, partial_cmp"])

p("C28", "An option given twice is rejected by every text reader",
  "When a mapping that holds the options of a structure (the document itself, a service, a healthcheck, a mount, a top-level network, an entry of a list and so on) gives the same option twice with values, in YAML or JSON text, reading the text fails in every reader: from text, bytes or a stream, with merge keys applied or not, as a whole document or as the structure on its own. No option silently wins over the other.",
  ["inputs"], "all options of all structures, every place of the second mention, every text reader",
  "Whether a repeated key is noticed depends on the visitor behind each structure (derived, flattened, hand-written, via an intermediate map), and no test repeats a key.",
  ["src/lib.rs", "src/common.rs", "src/service.rs", "src/service/healthcheck.rs", "src/service/credential_spec.rs", "src/service/volumes/mount.rs", "src/service/deploy.rs"],
  [("Deserialize implementations with MapAccess visitors, Resource, flattened extensions", "src/common.rs, src/service/**")],
  ["results of the readers for texts with a repeated option"])

p("C29", "Every data format is handed the same well-formed data when writing",
  "Writing a value through any serde data format succeeds like writing it as YAML and hands over the same keys, items and scalars in the same order, whether or not the format calls itself human-readable (network addresses alone are packed as numbers if it does not). It keeps serde's rules, on which length-prefixed formats depend: the number of entries announced for a mapping, sequence or structure is the number delivered, every key comes once and directly before its value, and no values of other kinds than a configuration file can hold are handed over.",
  ["inputs"], "all documents and structures, every hand-written and derived Serialize implementation, every optional entry present or absent",
  "YAML and JSON ignore announced lengths, so tests that only write these cannot see a wrong one; hand-written implementations compute them from optional parts.",
  ["src/common.rs", "src/config.rs", "src/secret.rs", "src/service/healthcheck.rs", "src/service/network_config.rs", "src/service/build/dockerfile.rs", "src/serde.rs", "src/serde/duration_option.rs", "src/serde/duration_us_option.rs", "src/serde/display_from_str_option.rs"],
  [("Serialize implementations", "src/**")],
  ["calls into a serializer of our own"])

p("C30", "A failure of the input, output or data format is reported, never swallowed",
  "When a stream fails after any number of bytes, or a data format reports an error at any step of reading or writing a value, the operation fails with that very error: it never panics, never succeeds with part of the data, and never falls back to another reading of it. Formatting into a writer that fails reports the failure, after writing a beginning of the text. A stream that is merely interrupted or delivers its bytes one by one gives the same result as a whole text.",
  ["inputs", "fault points"], "all documents and textual values, every step or byte at which the other side can fail, accepted and rejected data",
  "Tests never inject a failure; many readers here try one shape of an option and then another, or hold data back before deciding, which is where errors get lost.",
  ["src/options.rs", "src/common.rs", "src/common/short_or_long.rs", "src/serde.rs", "src/serde/duration_option.rs", "src/serde/display_from_str_option.rs", "src/service/healthcheck.rs", "src/service/credential_spec.rs", "src/service/ports.rs", "src/service/volumes.rs", "src/service/image.rs"],
  [("Deserialize, Serialize and Display implementations, Options::from_yaml_reader", "src/**")],
  ["results of operations with a failing reader, writer, formatter, serializer or deserializer"])

p("C31", "Work and memory grow no faster than the document",
  "Reading, writing, merging, validating, copying, comparing and converting a document or a textual value takes processor time and memory that grow in proportion to its size, in every place that takes any number of entries or a text of any length: services, references between them and the top level, lists, mappings, extensions, ranges, long texts. Nothing is done again for every entry that came before.",
  ["inputs"], "all documents enlarged in any one place, and all texts with a part repeated, accepted or rejected",
  "A quadratic step is invisible at the size of a test and stalls a program on a large generated document.",
  ["src/lib.rs", "src/common.rs", "src/options.rs", "src/serde.rs", "src/service.rs", "src/service/ports.rs", "src/service/volumes.rs", "src/service/cpuset.rs", "src/service/build/cache.rs", "src/service/image.rs", "src/duration.rs", "src/service/env_file.rs", "src/service/network_config.rs"],
  [("Deserialize, Serialize, Display and FromStr implementations, validate_*, conversions", "src/**")],
  ["bytes and calls of the allocator, processor time of the thread"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
