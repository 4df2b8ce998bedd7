import json
def P(id,title,statement,over,q,why,files,mech,observe=None,state=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
props=[
P("C01","A document loads the same however it is delivered",
 "Loading a Compose document gives the same result whichever entry point is used (string, bytes, reader, parsed YAML value, plain serde_yaml, the options builder with or without merge processing when no merge key is present, a builder reused for several documents) and however a reader splits, delays or interrupts the bytes: equal values that save to equal text, or a rejection everywhere. A valid document is never rejected, and two entry points that parse the same text report the same error.",
 ["inputs","schedules","fault_sequences"],
 "every valid document, and every damaged one (without duplicate keys or custom tags where an entry point goes through a parsed value); every way of splitting the bytes into reads and interrupting reads; every entry point and reuse history of the builder",
 "The tests load one fixed file from a string; no test reads from a reader that delivers short, split or interrupted reads, or compares entry points on other documents.",
 ["src/options.rs","src/lib.rs","src/serde.rs","src/service.rs"],
 [("Options::from_yaml_str/slice/reader/value share one loading path","src/options.rs"),("Deserialize implementations accept owned, borrowed and transient input","src/serde.rs")],
 ["return values of Compose::options() loaders and of serde_yaml::from_*"]),
P("C02","A failed or cut-off read never yields a half-loaded document",
 "When the input fails part-way (the reader returns an error after any number of bytes, or the deserializer fails at any point while the document is being built), loading returns an error and never a value. Input that ends early loads exactly as the bytes that arrived would, and after a failed load the same builder loads the full document correctly.",
 ["crash_points","fault_sequences","inputs"],
 "every document, every byte offset and error kind at which reading fails, every truncation point, every callback at which the underlying deserializer fails, for document loading and for the loading of each section on its own",
 "No test injects a read error or a failing deserializer; unit tests only feed complete strings.",
 ["src/options.rs","src/serde.rs","src/common.rs","src/common/short_or_long.rs","src/service.rs","src/service/ports.rs","src/service/volumes.rs"],
 [("errors are propagated with ? from every visitor","src/serde.rs"),("buffered alternatives of short or long syntax re-raise the error of the chosen form","src/common/short_or_long.rs")],
 ["Result of from_yaml_reader and of Deserialize::deserialize over a failing Deserializer"]),
P("C03","A failed save is always reported and never corrupts",
 "When the output fails at any point (a write error or full device after any number of bytes, a serializer that fails at any callback, a formatter that fails inside any formatted string), saving returns an error and stops at once; it never reports success. What reached the output before the failure is a prefix of what an undisturbed save writes, and a later save of the same value succeeds and is complete. Every length announced to a serializer equals the number of entries written, and no key is written twice.",
 ["crash_points","fault_sequences","inputs"],
 "every loadable document value (including values edited and converted through the API), every byte offset and error kind for writers, every serializer callback and every formatted piece, short and interrupted writes",
 "Tests serialize to an infallible String only.",
 ["src/common.rs","src/serde","src/service.rs","src/service/build","src/service/ports.rs","src/service/volumes.rs","src/service/env_file.rs","src/service/network_config.rs","compose_spec_macros/src"],
 [("Serialize implementations forward every serializer error","src/common.rs"),("Display-based serialization forwards formatter errors","compose_spec_macros/src")],
 ["Result and output of serde_yaml::to_writer and of Serialize::serialize over an instrumented Serializer"]),
P("C04","An acknowledged save survives and loads back as the same document",
 "For any document and any history of edits through the public API, a save that was acknowledged and made durable loads back, in a new process after a crash, as an equal document: every setting of every section is present with the meaning it was written with, user-defined order is kept, and nothing is invented or dropped. Saving what was loaded back gives identical bytes, and the saved text is the canonical form of the document (each value normalised as documented, unset and default fields omitted).",
 ["histories","crash_points","fault_sequences","inputs"],
 "every valid document over the whole Compose grammar supported by the library, every interleaving of load, edit, save, failed save, crash and recovery",
 "The only whole-document test round-trips one fixed file; property tests cover some value types in isolation, in fault-free single steps.",
 ["src/lib.rs","src/service.rs","src/service","src/common.rs","src/duration.rs","src/network.rs","src/volume.rs","src/config.rs","src/secret.rs","src/include.rs","src/name.rs"],
 [("Serialize and Deserialize of every type are inverse up to normalisation","src/service"),("insertion-ordered maps and sets","src/common.rs")],
 ["text of the saved file, parsed as plain YAML; values loaded from it"]),
P("C05","Results do not depend on the process, its hash seeds or its history",
 "The value loaded from a document, the bytes it is saved as, the verdict and message of every validation, and every error message are the same in every process and on every run, whatever the process's random hash seeds and whatever it loaded before. The order of services, resources, extensions, options and other user-keyed entries in saved output is the order of the document.",
 ["configurations","histories","inputs"],
 "every document (valid or damaged), every hash seed, every number of processes and every sequence of earlier operations in the process",
 "Each test process sees one random hash seed per run and compares values in an order-insensitive way.",
 ["src/common.rs","src/lib.rs","src/service.rs","src/network.rs","src/volume.rs"],
 [("insertion-ordered IndexMap and IndexSet everywhere a document order exists","src/common.rs"),("validation iterates services in document order","src/lib.rs")],
 ["saved bytes, error messages, iteration order of the public maps"]),
P("C06","Damaged input is rejected or kept well-formed, never a panic",
 "Loading bytes damaged in any way (bit flips, lost, duplicated, reordered or zeroed blocks, torn writes, replaced values) never panics, and whatever is accepted can be saved, loads back equal and saves to the same bytes. Every accepted value obeys its documented constraints (identifiers, names, hostnames, durations, byte sizes, ports and port ranges, image references, paths, percentages, scores, weights, users, platforms), so an out-of-range or malformed scalar is always rejected.",
 ["inputs","fault_sequences"],
 "every damaged version of every document, except CPU sets and port ranges spanning millions of entries and strings of more than a few kilobytes",
 "Per-type fuzz-like tests exist for some parsers (no panic only); damage to whole documents, and what happens to accepted damaged documents, is untested.",
 ["src/serde.rs","src/common/keys.rs","src/duration.rs","src/service/image.rs","src/service/ports.rs","src/service/volumes.rs","src/service/byte_value.rs","src/service/user.rs","src/service/cpuset.rs","src/service/device.rs","src/service/healthcheck.rs"],
 [("each constrained type is only constructible through its checked constructor","src/common/keys.rs")],
 ["Result of loading, saved text of accepted documents"]),
P("C07","An image reference edited in place always stays consistent",
 "After any sequence of edits to an image reference (set or clear the registry, name, tag or digest, whole parts, failed edits included), its parts, its string form and a fresh parse of that string all agree, and each accessor returns exactly what the history of successful edits implies. A rejected edit leaves the reference unchanged.",
 ["histories","inputs"],
 "every valid starting reference and every sequence of edits with valid and invalid arguments, interleaved with saves and loads",
 "Tests apply at most one edit to a few fixed references; the cached offsets inside the reference only go wrong after sequences of edits of different lengths.",
 ["src/service/image.rs","src/service/image"],
 [("registry_end and tag_or_digest start offsets are adjusted by each setter","src/service/image.rs")],
 ["Image::registry/name/tag/digest/as_str/as_parts/into_parts, Display, equality and hash"],
 [dict(name="registry_end, tag_or_digest offset",meaning="byte offsets of the parts in the inner string",where="src/service/image.rs")]),
P("C08","Validation finds exactly the undefined references, in order",
 "At every point of an editing history, each validation function accepts exactly when every network, config and secret a service refers to, and every named volume used by more than one service, is defined at the top level; otherwise the error names the first offending service and resource in document order. Validation never changes the document and gives the same verdict however often and wherever it is run.",
 ["histories","inputs","configurations"],
 "every document and every sequence of edits that defines, removes, renames and uses networks, volumes, configs and secrets, in short or long syntax; every hash seed",
 "Tests validate a handful of fixed documents once each.",
 ["src/lib.rs","src/service.rs","src/service/volumes.rs","src/service/network_config.rs","src/service/config_or_secret.rs"],
 [("Compose::validate_all and its four parts","src/lib.rs"),("Service::validate_*","src/service.rs")],
 ["Compose::validate_all/networks/volumes/configs/secrets"]),
P("C09","Concurrent and nested use never interferes",
 "Any number of threads loading, saving, validating and formatting their own or shared documents at the same time, in any interleaving, each get the result they get alone. The same holds when a load is started from inside a reader, deserializer, writer or serializer callback of another operation on the same thread, including when the outer operation then fails or panics.",
 ["schedules","histories"],
 "every interleaving of the operations at their read, write, deserializer and serializer callbacks, every nesting of operations on one thread, every abandoned operation",
 "Tests run each operation alone; nothing controls or varies interleavings and no test nests operations.",
 ["src/options.rs","src/lib.rs","src/serde.rs","src/common.rs"],
 [("no global or thread-local mutable state","src/lib.rs")],
 ["results of the public load, save, validate and Display operations per thread"]),
P("C10","Switching between short and long syntax loses nothing",
 "Converting any part of a document between its equivalent forms (short and long syntax, list and map, single item and list, ranges and individual ports, volume shorthand and mount) through the public API preserves its meaning: the converted value saves, loads and expands to the same settings as the original. A conversion back that would lose a setting is refused and hands back the original value unchanged.",
 ["histories","inputs"],
 "every document and every sequence of conversions, in any order, between loads and saves",
 "Tests convert a few fixed values, one step, for some of the types.",
 ["src/common/short_or_long.rs","src/common.rs","src/service/ports.rs","src/service/volumes.rs","src/service/volumes/mount.rs","src/service/env_file.rs","src/service.rs","src/service/network_config.rs","src/include.rs","compose_spec_macros/src"],
 [("FromShort, AsShort and into_long/into_short conversions","src/common/short_or_long.rs"),("ListOrMap::into_map/into_list","src/common.rs")],
 ["saved text after conversions, expanded to long form"]),
P("C11","Merge keys load as if expanded by hand",
 "With merge processing on, a document using YAML merge keys and aliases anywhere loads to the same value as the document in which they were expanded by hand, through every entry point; own keys win over merged ones and earlier merged maps over later ones. Whether merging is applied depends only on the last setting made on the builder, for every load made with it, and malformed merges are rejected.",
 ["inputs","histories","schedules"],
 "every placement and nesting of merge keys with one or several sources in valid documents; every history of settings and loads on one builder; every delivery of the bytes",
 "One test covers merge with one fixed document through one entry point.",
 ["src/options.rs"],
 [("Options::apply_merge selects loading through a merged value","src/options.rs")],
 ["result of Options::from_yaml_* compared with the expanded document"]),
P("C12","Formatting into a failing sink reports the failure",
 "Formatting any value of the library into a sink that fails after any number of bytes or pieces returns an error, writes nothing more, and what was written is a prefix of the full text; into a sink that accepts everything the text equals the canonical string, every time and from every thread. Error values format without panicking and the same way each time.",
 ["crash_points","fault_sequences","inputs"],
 "every Display and LowerExp/UpperExp value reachable from a document, and every error value; every failure point of the sink",
 "Tests format into an infallible String.",
 ["src/common.rs","src/duration.rs","src/service/ports.rs","src/service/image.rs","src/service/volumes.rs","src/service/build/cache.rs","src/service/network_config.rs","src/service/device.rs","src/service/cpuset.rs"],
 [("every Display implementation propagates the formatter's error","src")],
 ["Result and text of write!(sink, \"{value}\")"]),
P("C13","Values load the same from any conforming deserializer",
 "A document presented by any serde deserializer that follows serde's contract loads to the same value as from YAML text, whether strings are borrowed, transient or owned, unsigned and negative integers come in any width that holds them (a non-negative integer delivered as a signed one keeps its value, or is refused), nulls come as none or unit, size hints are exact, absent or wrong, and fields of a section come in any order.",
 ["inputs","configurations","schedules"],
 "every document, and every choice of delivery form at every callback",
 "Tests only load through serde_yaml's own deserializer, which always delivers the same form.",
 ["src/serde.rs","src/common.rs","src/common/short_or_long.rs","src/service/user.rs","src/service/limit.rs","src/service/byte_value.rs","src/service/deploy/resources.rs","src/service/blkio_config.rs","src/duration.rs","src/serde/duration_option.rs","src/serde/duration_us_option.rs"],
 [("visitors implement or forward all widths and string forms","src/serde.rs")],
 ["value loaded from a simulated deserializer against from_yaml_value"]),
P("C14","Values with internal state follow their model through any history",
 "Through any sequence of operations, valid or rejected, on values that keep internal state (port ranges, paths confined to a form, CPU sets, ulimits, limits, network and volume lists), every observable result equals that of a simple reference model, and a rejected operation leaves the value unchanged. At every point the value saves and loads back equal.",
 ["histories","inputs"],
 "every starting value and every sequence of operations and arguments on short port ranges, absolute and host paths, and the document collections",
 "Tests apply one operation to a few fixed values.",
 ["src/service/ports.rs","src/service/volumes.rs","src/service/cpuset.rs","src/service/limit.rs","src/service/network_config.rs"],
 [("ShortRanges keeps host and container ranges the same size","src/service/ports.rs"),("AbsolutePath and HostPath check every change","src/service/volumes.rs")],
 ["accessors, Display and saved text after each operation"]),
P("C15","Number conversions are exact or refused",
 "Converting between the library's number types and Rust's primitive numbers is exact, or refused with an error when the value does not fit.",
 ["inputs"],"every number",
 "Tests convert a few numbers.",["src/common.rs"],[("TryFrom and From implementations of Number","src/common.rs")]),
P("C16","Collections keyed by the library's values follow a model",
 "In any history of insertions, replacements, look-ups and removals, and in every process whatever its hash seed, hash maps, index maps and ordered maps keyed by the library's values hold and find exactly what a list searched with == does: values that compare equal hash alike, order as equal and are found by the string or path they borrow as, and equality is an equivalence under which equal values mean the same and identical ones are equal.",
 ["histories","inputs","configurations"],
 "every pair of values of the types that can be keys, every sequence of collection operations on them, every hash seed",
 "Tests rarely compare or hash values, never under a controlled hash seed and never as keys through a history.",
 ["src/common/keys.rs","src/service/volumes.rs","src/service/volumes/mount.rs","src/service/ports.rs","src/service/image.rs","src/service/image/name.rs"],
 [("key_impls, path_impls and the hand-written Eq, Ord and Hash implementations","src")],
 ["results of HashMap, IndexMap and BTreeMap operations keyed by the library's types"]),
P("C18","A part of a document means on its own what it means in the document",
 "Every section, setting and flattened structure saved on its own is the text the saved document has at its place, and, acknowledged and reloaded after a crash, is an equal part; what a document says at a part's place loads on its own as that part, and damage to it is accepted or rejected alike, with the same meaning, on its own and in the document (nulls inside service networks apart, which serde cannot buffer as empty lists). A document assembled from parts saved and loaded on their own equals the original.",
 ["inputs","histories","crash_points"],
 "every document, every part of it, every edit history, every single damage to a part",
 "Tests load either whole documents or one hand-written section, never both for the same text, and never put a document together from saved parts.",
 ["src/lib.rs","src/service.rs","src/common.rs","src/config.rs","src/secret.rs","src/service/network_config.rs","src/service/build/dockerfile.rs","src/service/volumes/mount.rs"],
 [("Serialize and Deserialize implementations of every section type, alone and flattened","src")],
 ["serde_yaml::to_string and from_str of a section type","the same section within Compose"]),
P("C19","What a value reports of itself agrees with what it saves as",
 "At every point of any history of loads, edits, crashes and reloads, what a value reports of itself agrees with what it is saved as: a section reported empty has no setting in it and one saved as empty is reported so, a value is reported to be exactly the form and kind it is saved in, each accessor gives the text, number or part that stands in the saved form, and comparing it with a plain string or number gives what comparing the saved form would. Every route from a text to a value of a type (parsing it, converting it from a borrowed, owned or boxed string or path, deserializing it) accepts the same texts with equal values and gives the same error otherwise, and every way of taking the text back out gives the text that is saved. A value assembled from its parts through the constructors and conversions of its type is saved as those parts are written, and loads back equal.",
 ["inputs","histories","crash_points"],
 "every value of every section and scalar type reachable by loading and editing; every text, valid or damaged, by every route",
 "Tests try one accessor or one conversion on one hand-made value; whether all of them agree with each other and with the saved form on every reachable value is not sampled at all.",
 ["src/common.rs","src/common/keys.rs","src/common/short_or_long.rs","src/lib.rs","src/network.rs","src/volume.rs","src/service.rs","src/service/build.rs","src/service/build/context.rs","src/service/build/cache.rs","src/service/deploy.rs","src/service/deploy/resources.rs","src/service/network_config.rs","src/service/volumes.rs","src/service/volumes/mount.rs","src/service/env_file.rs","src/service/user.rs"],
 [("is_empty, is_*, as_*, into_* accessors","src"),("impl_from_str!, key_impls!, path_impls!","src/lib.rs, src/common/keys.rs, src/service/volumes.rs")],
 ["accessors and conversions of every public type","serde_yaml::to_value of the same value"]),
P("C17","The derive macros accept exactly the supported type shapes",
 "The companion derive macros generate correct implementations for every supported type shape and reject every other shape with a compile error.",
 ["programs"],"every annotated type definition",
 "The macros are only used by the crate's own types.",["compose_spec_macros/src"],[("AsShort, FromShort, SerializeDisplay, Default derive macros","compose_spec_macros/src")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,sch); assert len(p['title'])<=80,p['id']
