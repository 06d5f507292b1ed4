#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the entries stay well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["public API return codes and output values"]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Any API history is memory-safe, UB-free and leak-free",
  "Whatever sequence of library calls a program makes on configurations, molds and their parts - including calls made in the wrong state, on the wrong kind of object, with arbitrary names, strings, numbers and versions, and nested to any depth - the library never reads or writes outside its objects, never uses freed memory, never executes undefined behaviour and never aborts. When the program has released every handle it obtained, nothing those calls allocated is still allocated.",
  ["histories", "inputs"], "all finite sequences of library calls over live handles, with all argument values of the documented types",
  "The tests run a few hundred fixed call sequences, without any sanitizer and without accounting for allocations; lifetime and overflow errors depend on call orders, lengths and nesting depths no test samples.",
  ["lib/context.c", "lib/context_util.c", "lib/context_keyval.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_value.c", "lib/context_section.c", "lib/context_documentation.c", "lib/collection.c", "lib/element_storage.c", "lib/validate.c", "lib/query.c"],
  [("handle reference counting and state checks", "lib/context.c, lib/include/context_private.h"), ("ownership of children by their parent", "lib/element_storage.c, lib/context_config.c, lib/context_mold.c")],
  [("reference count and state of a context", "who may still use it", "lib/include/context_private.h")],
  ["sanitizer reports", "live allocation accounting at the end of each history"])

p("C02", "Handles keep objects usable; destroyed objects refuse every operation",
  "A handle to a part of a configuration or mold, a collection or a mold obtained through the API stays usable until its holder releases it, whatever happens meanwhile to the parent or to other handles. Once an object has been destroyed it is gone from its parent (not found, counted, listed or serialized any more), every remaining handle to it only yields the destroyed-object status and changes nothing, and releasing those handles in any order is safe.",
  ["histories"], "all interleavings of acquiring, releasing, destroying and using handles to parents, children and collections",
  "Tests destroy an object once, in one order, right at the end; the guarantee is about every order of release and destruction.",
  ["lib/context.c", "lib/collection.c", "lib/element_storage.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_section.c", "lib/context_keyval.c"],
  [("state transition to destroyed, removal from the parent's storage", "lib/context.c, lib/context_*.c"), ("collections hold references", "lib/collection.c")],
  None, ["return codes on stale handles", "listing of the parent after destruction", "sanitizer reports"])

p("C03", "A value reads back exactly as set, and only values of the right type are set",
  "Setting a value on a configuration entry, a default or through a query stores exactly the given value: reading it back with the matching typed getter, returns the same 64-bit integer, the same double, the same boolean or the same bytes of string, however large the value and however often it was set before, and its text form is the value's (a double's being its '%f' rendering). Getting with a type other than the entry's own is refused with the wrong-type status, and so is setting one on a completed valid entry, which changes nothing; an entry under construction takes it but can only be completed as invalid.",
  ["inputs", "histories"], "all values of all five value types, all sequences of sets and gets on the same entry",
  "Tests read back a handful of short strings and small numbers.",
  ["lib/context_value.c", "lib/context_keyval.c", "lib/context_util.c", "lib/disir_config_query.c"],
  [("value storage per type", "lib/context_value.c"), ("type dispatch of the setters and getters", "lib/context_util.c, lib/context_keyval.c")],
  None, ["typed getters", "text getter"])

p("C04", "A value is accepted exactly when the restrictions active at its version allow",
  "A value of an entry satisfies the mold when at least one of the mold entry's value restrictions (range, number, enumerated string) that are active at the configuration's version admits it, or when none is active for a type other than enumeration; an enumeration entry needs an active restriction listing its value, strings and booleans are not restricted, and bounds of integer entries count as whole numbers (their fraction is dropped). Setting a non-admitted value on a completed entry is refused with the restriction-violated status and leaves the old value; an admitted value is always accepted.",
  ["inputs", "configurations"], "all sets of value restrictions with introduction and deprecation versions, all configuration versions and all values, including interval end points",
  "Tests use one or two restrictions at one version and one value on either side; version windows and their combinations are not explored.",
  ["lib/context_restriction.c", "lib/validate.c", "lib/context_keyval.c"],
  [("restriction evaluation", "lib/context_restriction.c"), ("value check on set", "lib/context_keyval.c, lib/validate.c")],
  [("introduced/deprecated window of a restriction", "when the restriction is active", "lib/include/restriction.h")])

p("C05", "Occurrence limits active at the version bound every section and entry",
  "For every section and entry known to the mold, the number of instances inside each parent instance of a configuration is judged against the minimum and maximum in force at the configuration's version, one and one unless restricted otherwise, and a maximum of zero meaning unlimited. A configuration or section with too few or too many instances of any element at any level is reported invalid, one within all limits is not, and the limits reported by the API are the ones enforced.",
  ["configurations", "inputs"], "all nestings of sections and entries, all occurrence restrictions with version windows, all instance counts and all configuration versions",
  "Tests cover a single restriction at the top level, or one level below, at one version.",
  ["lib/context_restriction.c", "lib/validate.c", "lib/context_section.c", "lib/context_config.c", "lib/element_storage.c"],
  [("entry limit evaluation", "lib/context_restriction.c"), ("restriction check on completion", "lib/validate.c")])

p("C06", "The validity verdict is exact and names exactly the offending parts",
  "A configuration or mold is reported valid exactly when every part of it satisfies the rules (known to the mold, legal name, typed value, at least one default, value and occurrence restrictions); completing an invalid one still yields it, marked invalid. The listing of invalid parts contains every part that breaks a rule and no part that satisfies all of them, each carries an error text, and the verdict of each part equals what is listed. This is judged when the object is completed or read.",
  ["configurations", "histories"], "all configurations and molds that can be built through the API, with any combination of violations anywhere in the tree",
  "Tests plant one violation at a time in two or three fixed molds.",
  ["lib/validate.c", "lib/context.c", "lib/disir_config.c", "lib/disir_mold.c", "lib/context_util.c"],
  [("recursive validation", "lib/validate.c"), ("invalid-context collection", "lib/validate.c, lib/disir_config.c, lib/disir_mold.c")])

p("C07", "Generating a configuration yields a valid, complete one at every version",
  "For every valid mold whose defaults satisfy its own restrictions and every version not above the mold's, generating a configuration succeeds and gives a valid configuration carrying exactly that version (the mold's when none is asked). It contains the minimum required number of instances of every element active at that version in every parent, in mold order and nothing else, and every entry holds the default that is active at that version.",
  ["configurations", "inputs"], "all valid molds (nesting, multiple defaults, occurrence limits and version windows) and all target versions",
  "Tests generate from the built-in test molds only, nearly always at the mold's own version.",
  ["lib/generate.c", "lib/context_default.c", "lib/context_restriction.c"],
  [("recursive generation from mold elements", "lib/generate.c"), ("active default lookup", "lib/context_default.c")])

p("C08", "Versioned defaults and documentation resolve to the newest not above",
  "Asking an entry for its default, or any object for its documentation, at a version returns the one with the highest introduction version not above it, and without a version the newest (when all are newer than the version asked for, the oldest); resetting an entry to default stores that very value. Defaults may be added in any order, are listed by increasing version, and adding a second default or documentation for a version already covered is refused without effect, or, while the entry is under construction, reported and makes the entry invalid.",
  ["inputs", "histories"], "all sets of versioned defaults and documentation, in every insertion order, and all query versions",
  "Tests use two or three versions in a fixed order.",
  ["lib/context_default.c", "lib/context_documentation.c", "lib/context_keyval.c"],
  [("ordered insertion and lookup of defaults", "lib/context_default.c"), ("documentation lookup", "lib/context_documentation.c")])

p("C09", "A mold's version is the newest version mentioned anywhere inside it",
  "After any part has been completed inside a mold, the mold's version is the highest of its previous version and all introduction and deprecation versions of its completed documentation, defaults, sections and restrictions; it never decreases (a deprecation version with major number 0 counts as none). A configuration of the mold can be given any version up to the mold's and none above, a refused version leaving the old one in place.",
  ["histories", "inputs"], "all orders of building molds with arbitrary versions on any part, and all configuration versions",
  "Tests check one mold with versions added in increasing order.",
  ["lib/context.c", "lib/context_util.c", "lib/context_mold.c", "lib/context_config.c", "lib/util.c"],
  [("mold version update on completion", "lib/context.c, lib/util.c"), ("version guard on configurations", "lib/context_util.c")])

p("C10", "What is set by query path is what that path, and only that path, returns",
  "After a successful set through a query path such as a.b@1.c@2, reading the same path - by query or by walking the configuration - returns that value, every other entry that existed keeps its value and position, and any section the set had to create holds the minimum required content with defaults. Reading or writing a path names exactly one instance, an omitted index meaning the first, and a path that names nothing is reported as not existing.",
  ["histories", "inputs"], "all sequences of path sets and gets over configurations of any mold, all indices and nesting depths",
  "Tests issue single sets on one fixed mold.",
  ["lib/disir_config_query.c", "lib/query.c"],
  [("query parsing and ancestor creation", "lib/query.c"), ("typed set and get wrappers", "lib/disir_config_query.c")])

p("C11", "A refused query changes nothing",
  "When setting through a query path is refused - unknown name, wrong type, restricted value, index gap, occurrence limit reached, section where an entry is expected or the reverse, malformed path, over-long path - the status says so and the configuration is exactly what it was before, including sections that would have had to be created and references held. Malformed paths are refused rather than interpreted as some other path.",
  ["histories", "inputs"], "all configurations and all refused queries, including arbitrary path texts",
  "Tests look at the returned status of a few refusals and never at the rest of the configuration.",
  ["lib/query.c", "lib/disir_config_query.c"],
  [("rollback of created ancestors", "lib/query.c"), ("query tokenizer", "lib/query.c")])

p("C12", "An element's reported full name addresses that element",
  "The full path name reported for any section or entry of a configuration or mold identifies it by every ancestor and instance index, at any nesting depth: no two elements of a configuration report the same name, and resolving the reported name from the root yields that same element.",
  ["configurations"], "all configurations and molds, any depth, any number of equally named siblings",
  "Tests check three hand-made names at depth two.",
  ["lib/context.c", "lib/query.c", "lib/context_util.c"],
  [("root name construction", "lib/context.c"), ("query resolution", "lib/query.c")])

p("C13", "Elements keep insertion order; lookup, index, listing and removal agree",
  "The elements of a configuration, mold or section are listed exactly once each, in the order they were added, after any sequence of additions and removals. Looking up by name and index returns the index-th remaining instance of that name in insertion order, listing by name returns all of them in that order, and a collection, once obtained, yields its elements in order, can be reset, sized and coalesced, and reports exhaustion at the end.",
  ["histories"], "all sequences of element additions, removals and lookups with repeated names, and all collection operation sequences",
  "Tests add a fixed handful of elements and never mix removals with lookups.",
  ["lib/element_storage.c", "lib/collection.c", "lib/context_section.c", "lib/context_config.c", "3rdparty/void-list/list.c", "3rdparty/void-multimap/multimap.c"],
  [("dual list and multimap storage", "lib/element_storage.c"), ("collection iteration", "lib/collection.c")])

p("C14", "Comparison reports equal exactly for equal objects and lists the differences",
  "Comparing two configurations, molds, sections or entries of the same kind reports equality exactly when they have the same elements with the same values, defaults, restrictions (in the same order), documentation and versions, the version of the root itself apart; otherwise it reports a conflict with at least one entry in the difference report, and an equal comparison yields none. The verdict is the same with the arguments exchanged, and comparing never changes either side.",
  ["inputs", "configurations"], "all pairs of comparable objects, in particular pairs that differ in exactly one attribute anywhere in the tree",
  "Tests compare a dozen fixed pairs with differences of moderate size.",
  ["lib/compare.c", "lib/context_value.c", "lib/util.c"],
  [("recursive comparison and report", "lib/compare.c"), ("value ordering", "lib/context_value.c")])

p("C15", "Updating moves defaults, keeps customised values, and asks on conflict",
  "Updating a configuration to a newer mold version gives a new, valid configuration of that version, leaving the old one as it was, in which every entry the user changed keeps the user's value when the mold's default did not change, and every entry left at its old default takes the new default. An entry whose value was changed while its default changed too, or whose kept value is no longer admitted, is reported as a conflict before the update can finish, with both values, and takes the value chosen for it; entries of every section and every instance the mold still admits at that version are treated alike.",
  ["configurations", "histories"], "all molds with several default versions, all customised configurations, all pairs of versions and all conflict resolutions",
  "Tests update two fixed molds at the top level with one conflict.",
  ["lib/update.c", "lib/disir_config.c", "lib/generate.c"],
  [("update walk, conflict and resolve protocol", "lib/update.c")])

p("C16", "A configuration written as JSON reads back identical",
  "Writing any valid configuration as JSON and reading it back against its mold succeeds and gives a configuration equal in version, structure, order of equally named instances and every value: strings byte for byte including quotes, control and non-ASCII characters, integers over the whole 64-bit range, doubles exactly. This holds through the file system store and through file descriptors alike. What cannot be represented or cannot be written is refused with an error.",
  ["inputs", "configurations"], "all valid configurations of all molds",
  "Tests round-trip the built-in test molds with generated default values only.",
  ["lib/fslib/json/json_serialize_config.cc", "lib/fslib/json/json_unserialize_config.cc", "lib/fslib/json/jsonIO.cc", "lib/fslib/json.cc", "3rdparty/jsoncpp/jsoncpp.cpp"],
  [("JSON writer and reader for configurations", "lib/fslib/json/")])

p("C17", "A configuration written as TOML reads back identical",
  "Writing any valid configuration as TOML and reading it back against its mold succeeds and gives a configuration equal in version, structure, order of equally named instances and every value: strings byte for byte, integers over the whole 64-bit range, doubles exactly, including doubles with integral values. What cannot be represented or cannot be written is refused with an error at write time instead of being written wrongly.",
  ["inputs", "configurations"], "all valid configurations of all molds",
  "One of the three TOML round-trip tests is known to fail and the others use generated default values only.",
  ["lib/fslib/toml/toml_serialize.cc", "lib/fslib/toml/toml_unserialize.cc", "lib/fslib/toml.cc", "3rdparty/tinytoml/toml.h"],
  [("TOML writer and reader for configurations", "lib/fslib/toml/")])

p("C18", "A mold written as JSON reads back equivalent",
  "Writing any valid mold as JSON and reading it back succeeds and gives a mold equal in version, elements and their order, types, defaults, restrictions and their order with their version windows, introduction and deprecation versions and newest documentation; the mold written is unchanged. In particular both molds generate the same configuration at every version and accept the same configurations, and writing the copy and reading it again gives the same mold once more. A text that could not be written out completely is reported.",
  ["inputs", "configurations"], "all valid molds",
  "Tests round-trip the built-in test molds, which use few restriction kinds and no unusual values.",
  ["lib/fslib/json/json_serialize_mold.cc", "lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json/jsonIO.cc"],
  [("JSON writer and reader for molds", "lib/fslib/json/")])

p("C19", "Any text offered as configuration or mold is refused cleanly or read correctly",
  "Reading any byte sequence as a JSON or TOML configuration, a JSON mold or a mold override never crashes, loops, leaks or executes undefined behaviour: it either fails with an error status, an error text and no object, or yields an object whose validity verdict is exact, an invalid one being returned together with the invalid status. A document with a value of the wrong type, an unknown element, a bad version or a structural mismatch is never reported as valid.",
  ["inputs"], "all byte sequences, in particular structural mutations of valid documents",
  "Tests parse a few dozen hand-written documents.",
  ["lib/fslib/json/json_unserialize_config.cc", "lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json/json_mold_namespace_override.cc", "lib/fslib/toml/toml_unserialize.cc", "lib/fslib/read.c", "lib/fslib/json.cc", "lib/fslib/toml.cc"],
  [("document readers", "lib/fslib/json/, lib/fslib/toml/")])

p("C20", "The entry store behaves like a map from entry id to last written entry",
  "For a file system backed group, after any sequence of writes, removals, reads, queries and listings, reading an entry returns the configuration last written under that id and not removed since, querying says exists exactly for those, and the listing names each exactly once and nothing else, at any directory depth and with foreign files present. Operations on one entry never affect another, and an entry without a mold is neither written, read nor listed.",
  ["histories", "inputs"], "all sequences of store operations over all legal entry ids, including ids that are prefixes of one another, with several plugins per group",
  "Tests write and read back single entries.",
  ["lib/fslib/read.c", "lib/fslib/write.c", "lib/fslib/query.cc", "lib/fslib/filepath.c", "lib/fslib/mkdir.c", "lib/disir_config.c", "lib/disir_mold.c", "lib/disir_entry.c"],
  [("path mapping and directory walk", "lib/fslib/query.cc, lib/fslib/filepath.c"), ("group dispatch", "lib/disir_config.c, lib/disir_mold.c")])

p("C21", "A store write that fails says so and never destroys the previous entry",
  "When the operating system refuses or cuts short any step of writing, reading or removing an entry - creating directories, opening, writing, flushing, closing, deleting, no space, no permission - the call returns an error status with an error text, never success. After a failed write or removal the entry reads back as it was before the call, and no other file, descriptor or memory is affected. When the process ends in the middle of a write or removal, the entry is afterwards either what it was or what was written, and the store goes on to work.",
  ["fault_sequences", "inputs"], "all single faults (error, short transfer, end of the process) at every system call of every store operation",
  "Tests never make an operating system call fail.",
  ["lib/fslib/write.c", "lib/fslib/read.c", "lib/fslib/mkdir.c", "lib/fslib/toml.cc", "lib/fslib/json.cc", "lib/fslib/json/json_serialize_config.cc"],
  [("error propagation and file replacement", "lib/fslib/write.c")],
  None, ["return codes, error text and file contents with faults injected at the system call boundary"])

p("C22", "No entry id reaches a file outside the configured directories",
  "Whatever entry id is passed to read, write, remove or query a configuration or mold, the library opens, creates, truncates or deletes files only beneath the base directories configured for the plugin. An id that would leave them, by parent references, absolute paths or excess length, is refused with an error text and has no effect.",
  ["inputs"], "all entry ids as byte strings, for every operation taking one",
  "No test passes a hostile entry id.",
  ["lib/fslib/filepath.c", "lib/fslib/query.cc", "lib/fslib/write.c", "lib/disir_config.c", "lib/disir_mold.c"],
  [("entry id validation and path construction", "lib/fslib/filepath.c, lib/fslib/query.cc")],
  None, ["file system snapshot outside the base directories", "recorded paths of file operations"])

p("C23", "Entries resolve to their own mold, else the namespace mold, plus override",
  "Reading the mold of an entry yields the entry's own mold file when there is one, otherwise the namespace mold of the same directory, and is refused when neither exists. When an override exists for the entry, exactly the defaults it names take the overriding value from the version it maps to until the mold's next default, and every other entry, version and entry id is unaffected; an override naming unknown entries, unmapped versions or wrong types gives an error or an invalid mold, never a silently different one.",
  ["configurations", "inputs"], "all directory layouts of own, namespace and override molds and all override documents",
  "Tests cover one directory with one override.",
  ["lib/fslib/query.cc", "lib/fslib/namespace.cc", "lib/fslib/read.c", "lib/fslib/json/json_mold_namespace_override.cc"],
  [("mold path resolution", "lib/fslib/query.cc"), ("override application", "lib/fslib/json/json_mold_namespace_override.cc")])

p("C24", "Export then import reproduces every exported entry",
  "Every configuration entry exported to an archive, by entry or by group, from any number of groups, is listed when the archive is opened for import, and importing it into an installation where the entry is absent or different restores exactly the exported configuration. Extending an existing archive keeps everything already in it, and entry ids, group names and versions survive unchanged.",
  ["configurations", "histories"], "all sets of groups, entries and configurations, all append sequences and archive re-openings",
  "Tests export and import the built-in entries once each.",
  ["lib/disir_export.cc", "lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/disir_import.c"],
  [("archive writer and metadata", "lib/disir_export.cc, lib/disir_archive_util.cc"), ("archive reader", "lib/disir_archive.cc")])

p("C25", "Import statuses are truthful and only chosen resolutions take effect",
  "For every entry of an opened archive the reported status truthfully classifies it against the installation: identical, importable, conflicting, invalid or unsupported. Finalizing an import writes exactly the entries whose chosen resolution calls for it, with the chosen content (archive's, or current updated to it), discarding or resolving nothing leaves the installation untouched, and an inapplicable resolution is refused.",
  ["configurations", "histories"], "all combinations of installed and archived entries, versions and mold availability, and all resolution choices",
  "Tests resolve one entry per scenario.",
  ["lib/disir_import.c", "lib/disir_archive_util.cc", "lib/update.c"],
  [("entry classification and resolution", "lib/disir_import.c")])

p("C26", "A hostile archive can neither crash the importer nor write outside its sandbox",
  "Opening any file as an archive - truncated, bit-flipped, with forged metadata, missing or surplus members, absolute or parent-relative member names, links, or absurd sizes - either fails with an error status or yields an import whose entries match the archive's consistent content. It never crashes, leaks, creates files outside the library's own temporary directory or leaves that directory behind.",
  ["inputs"], "all byte sequences offered as an archive, in particular mutated members and metadata inside valid archive containers",
  "Tests open archives the library itself wrote, plus one bad path.",
  ["lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/disir_import.c"],
  [("archive extraction and metadata validation", "lib/disir_archive.cc, lib/disir_archive_util.cc")])

p("C27", "Archives are finalized all-or-nothing and leave no temporary files",
  "Finalizing an export either produces a complete archive at the requested path or reports an error and leaves every file that existed before - in particular an archive being extended or overwritten - intact and readable. Whether an export or import is finalized, discarded or fails, no temporary file or directory remains once its handle is released, and a failed finalize can be retried.",
  ["fault_sequences", "histories"], "all export and import histories, with failing destinations and a failing system call at every step",
  "Tests finalize to writable places only and never look at leftovers.",
  ["lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/disir_export.cc"],
  [("temporary directory and backup handling", "lib/disir_archive.cc, lib/disir_archive_util.cc, lib/disir_export.cc")])

p("C28", "Group operations go to the registered plugins in priority order",
  "With any number of plugins registered in any number of groups, reading, querying and listing an entry consult only plugins of the requested group, reading and querying are answered by the first plugin in registration order that has the entry, and writing and removing go to the first plugin of the group. An unknown group is refused (its listing is empty), a plugin lacking an operation is reported as unsupported rather than called, and the listing is the duplicate-free union.",
  ["configurations", "histories"], "all sets of registered plugins with missing operations and overlapping entries, and all operations",
  "Tests register one plugin per group.",
  ["lib/disir_plugin.c", "lib/disir_config.c", "lib/disir_mold.c", "lib/disir.c", "lib/disir_entry.c"],
  [("plugin registration and dispatch", "lib/disir_plugin.c, lib/disir_config.c, lib/disir_mold.c")])

p("C29", "Error messages are complete, current and copied within bounds",
  "After a failing call that sets an error, the instance's or object's error text is that of the last failure, complete at any length and with user data reproduced literally, and clearing removes it. Copying it writes at most the given number of bytes, always terminates, reports the full size needed, and when it does not fit returns a proper prefix ending in an ellipsis together with the insufficient-resources status.",
  ["inputs", "histories"], "all messages, all buffer sizes and all sequences of setting, clearing and copying errors",
  "Tests copy one message into two buffer sizes.",
  ["lib/error.c", "lib/log.c"],
  [("error storage and copying", "lib/error.c, lib/log.c")])

p("C30", "Versions order numerically, and text conversion is exact or refused",
  "Comparing two versions orders them by major then minor number over the whole range, antisymmetrically and transitively. Formatting a version and converting it back gives the same version, text that holds no version, or one whose numbers are negative or do not fit, is refused rather than converted to a different version, and formatting writes within the given buffer.",
  ["inputs"], "all pairs of 32-bit major and minor numbers, all texts and all buffer sizes",
  "Tests compare and convert a few small versions.",
  ["lib/util.c", "lib/context_util.c"],
  [("version comparison and conversion", "lib/util.c")])

p("C31", "An instance loads exactly its configured plugins or fails cleanly",
  "Creating an instance from a library configuration registers exactly the plugins it names, in order, with their group, entry paths and identity readable afterwards; a missing file, unloadable plugin, missing symbol, failing plugin or invalid configuration makes creation fail with the matching status. On failure nothing stays allocated, loaded or initialised, and destroying an instance runs each plugin's finish step exactly once.",
  ["configurations", "fault_sequences"], "all library configurations, with any plugin in the list failing in any way",
  "Tests create instances from one correct configuration.",
  ["lib/disir.c", "lib/disir_plugin.c", "lib/instance_mold.c"],
  [("instance creation and plugin loading", "lib/disir.c")])

p("C32", "The command line tool's result tells what the library found",
  "Each command of the command line tool acts on the requested group only, and its output, exit status and effect agree with what the library finds: verify flags exactly the invalid entries, list names exactly the stored ones, dump shows every element and value, generate creates exactly the requested missing entries and overwrites existing ones only when forced, remove deletes exactly the named entry, export writes an archive of exactly the chosen entries, and import announces, asks and commits exactly what the options or the typed answers chose. A command that cannot do what was asked exits nonzero with a message; any argument list and any typed input is answered without crashing or asking forever, usage errors leave the store untouched, and no command leaves temporary files behind.",
  ["inputs", "histories"], "all argument lists and all installed stores",
  "No test runs the command line tool.",
  ["cli/cli.cc", "cli/command.cc", "cli/command_verify.cc", "cli/command_generate.cc", "cli/command_list.cc", "cli/command_remove.cc", "cli/command_export.cc", "cli/command_import.cc", "cli/command_dump.cc"],
  [("command dispatch and handlers", "cli/")])

p("C33", "Running out of memory is reported, not crashed on",
  "When any single allocation inside a library call on configurations, molds, queries, comparison or generation fails, the call reports failure (or succeeds correctly without it) without crashing or corrupting objects. Afterwards the objects involved remain usable or releasable, and releasing everything leaves nothing allocated.",
  ["fault_sequences"], "all library call histories with a failing allocation at every allocation point",
  "No test makes an allocation fail.",
  ["lib/context.c", "lib/context_config.c", "lib/context_mold.c", "lib/context_keyval.c", "lib/element_storage.c", "lib/collection.c", "lib/generate.c", "lib/query.c", "lib/compare.c", "lib/context_value.c"],
  [("allocation result checks and error paths", "lib/*.c")])

p("C34", "Threads working on separate objects do not interfere",
  "Threads that each use their own instance, molds, configurations, entry files and archives run without data races between them, at any log level, and each gets the same results as when it runs alone.",
  ["schedules"], "all interleavings of library calls on disjoint objects in several threads",
  "All tests are single-threaded.",
  ["lib/log.c", "lib/disir.c", "lib/disir_archive_util.cc", "lib/fslib/mkdir.c", "lib/fslib/query.cc"],
  [("absence of shared mutable state; log stream per message", "lib/log.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
