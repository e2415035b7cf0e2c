#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles and statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","The active default is the newest one introduced at or before the version",
 "For every mold keyval and every version, the value reported as its default, and the value that generation, section creation and set-to-default put into a config, is that of the default with the greatest introduced version not above the requested version (for a config element the config's own version unless one is given, else the newest default when none is given; the oldest default if all are newer). The order in which the defaults were added never matters.",
 ["inputs","configurations"],"every mold (any set of defaults in any insertion order) and every requested version",
 "Tests use two or three fixed molds whose defaults are added in ascending order; the claim is over all sets, orders and versions.",
 ["lib/context_default.c","lib/generate.c","lib/context_keyval.c"],
 [("ordered default queue and active lookup","lib/context_default.c dx_default_finalize / dx_default_get_active"),("generation","lib/generate.c")])
p("C02","Generating a config yields exactly the minimal instance of the mold",
 "A config generated from a mold at a version contains, recursively, for each mold element live at that version exactly its effective minimum number of entries (none for elements not yet introduced or already deprecated), every keyval holding its active default, and carries that version (the mold's version when none is given). A version newer than the mold is refused. If the defaults satisfy their own restrictions the generated config is reported valid.",
 ["inputs","configurations"],"every mold and every version",
 "Tests generate from a handful of built-in molds and compare a few keys.",
 ["lib/generate.c","lib/context_restriction.c"],
 [("recursive generation from mold equivalents","lib/generate.c"),("effective minimum","lib/context_restriction.c dx_restriction_entries_value")])
p("C03","A finalized keyval never takes a wrongly typed or restricted value",
 "Setting a value on a keyval that is part of a finalized config and not marked invalid succeeds exactly when the value has the mold's type and, if any value restriction of the mold is active at the config's version (introduced at or before it, not deprecated at it), satisfies at least one of them (numbers compare in double precision); an enum additionally needs an active restriction. On success reading the keyval returns that value; on failure an error is returned and the old value is kept.",
 ["inputs","histories","configurations"],"every sequence of typed value writes against every set of range/numeric/enum restrictions with introduced/deprecated versions",
 "Tests try a few values against one mold; boundaries, deprecation windows and combinations of restrictions are not enumerated.",
 ["lib/context_value.c","lib/context_restriction.c","lib/disir_config_query.c"],
 [("exclusive restriction check","lib/context_restriction.c dx_restriction_exclusive_value_check"),("value setters","lib/context_value.c")])
p("C04","Entry counts in a finalized container never exceed the mold's effective maximum",
 "The effective minimum and maximum of an element at a version come from the newest entries-restriction introduced at or before that version (default one and one, a maximum of zero is unlimited, a maximum below the minimum is raised to it, and nothing is allowed outside the element's introduced/deprecated window). Adding an element to a finalized config or section succeeds only if the count stays within that maximum, and a refused addition leaves the config unchanged.",
 ["inputs","histories","configurations"],"every history of element additions and removals against every set of versioned entry restrictions",
 "Tests use one restriction per kind; interaction of several introduced versions, deprecation and repeated add/remove is not covered.",
 ["lib/context_restriction.c","lib/context.c","lib/validate.c"],
 [("effective limits","lib/context_restriction.c dx_restriction_entries_value"),("finalize-time maximum check","lib/validate.c"),("name-time maximum check","lib/context.c dc_set_name")])
p("C05","The validity verdict is exact and names every offending element",
 "A config is reported valid exactly when every container has each of its mold elements within the effective minimum and maximum for the config's version, and every keyval and section exists in the mold with the right type, has a legal name and, for keyvals, a value of the right type satisfying the active restrictions. When it is not valid the returned collection holds exactly the elements that offend, including those nested in sections.",
 ["inputs","configurations","programs"],"every config tree built through the API, valid or not, over every mold and version",
 "Tests look at single-fault configs; combinations and nesting of faults are not enumerated.",
 ["lib/validate.c","lib/disir_config.c"],
 [("recursive validation","lib/validate.c dx_validate_context"),("collection of invalid elements","lib/validate.c dx_invalid_elements")])
p("C06","Molds are only accepted when well formed, and their version is the newest seen",
 "A mold keyval is accepted as valid exactly when it has a legal name, a known type and at least one default, no two of its defaults share an introduced version, and no two entry minimums (or maximums) share one; otherwise the error is reported and propagates to the mold's validity. The version of a mold is at least 1.0 and the greatest introduced or deprecated version of any element, default, restriction or documentation ever finalized in it, unless it was set explicitly.",
 ["inputs","programs"],"every program of mold-construction calls",
 "Tests build molds by hand one fault at a time.",
 ["lib/validate.c","lib/context_mold.c","lib/context.c","lib/context_default.c"],
 [("mold keyval validation","lib/validate.c"),("version update on finalize","lib/context_mold.c dx_mold_update_version")])
p("C07","A query addresses exactly the element it names",
 "A query of the form name@index.name@index... resolves to the element reached by taking, at each level, the index-th (from zero, zero when omitted) element of that name in insertion order; it reports not-exist when any step is absent and invalid-argument when the text is malformed. The query an element reports for itself resolves back to that same element.",
 ["inputs","configurations","histories"],"every query string and every config tree, after any history of additions and removals",
 "Tests resolve a fixed list of queries over one built-in config.",
 ["lib/query.c","lib/context_util.c","lib/element_storage.c","lib/context.c"],
 [("query tokenizer","lib/query.c dx_query_resolve_name"),("recursive resolution","lib/query.c"),("self name","lib/context.c dc_resolve_root_name")])
p("C08","Setting a value by query creates exactly what is missing, or changes nothing",
 "Writing a value by query to an existing keyval updates only that keyval. When the keyval or sections on its path are missing they are created only if the mold allows it, each index is the next free one and the maximum permits it, with created sections filled with their minimal generated content; then the written value reads back. When the write is refused for any reason, the config's content is unchanged, nothing half-built remains in it, and no memory is leaked or corrupted.",
 ["inputs","histories","configurations"],"every sequence of writes by query (valid, malformed, out of range, wrong type, violating) against every mold",
 "Tests cover success and a few refusals on one mold; partially created ancestors followed by each kind of failure are not covered.",
 ["lib/disir_config_query.c","lib/query.c"],
 [("ancestor creation and rollback","lib/query.c dx_query_ensure_ancestors"),("leaf creation","lib/disir_config_query.c config_ensure_keyval_leaf")])
p("C09","Containers keep their elements in order and find them by name and index",
 "For every history of additions and removals, listing a container returns exactly its current elements in insertion order, listing by name returns exactly those with that name in insertion order, and removing an element removes that element only, shifting later indexes of the same name down by one.",
 ["histories"],"every sequence of add, destroy and lookup operations over repeated names and nested sections",
 "Unit tests add a few elements and remove one; index behaviour after removals from the middle is not covered.",
 ["lib/element_storage.c","lib/context.c","lib/context_util.c"],
 [("ordered list plus name multimap","lib/element_storage.c"),("removal from parent","lib/context.c context_remove_from_parent")])
p("C10","References keep contexts usable; destruction is complete and memory-safe",
 "A context stays usable while the caller holds a reference to it; once it has been destroyed, or removed with an ancestor that was destroyed, every operation through a remaining reference reports it as destroyed instead of acting on it, and releasing that reference is always possible; a config keeps its mold until it is finished itself. For every order of finalize, release and destroy calls on any contexts, no memory is used after it is freed, freed twice or left allocated once all references are released.",
 ["histories","programs"],"every interleaving of begin, finalize, keep-reference, put and destroy over a tree of contexts",
 "Tests release in one fixed order and run without a memory checker.",
 ["lib/context.c","lib/context_private.h","lib/context_section.c","lib/context_config.c","lib/context_mold.c"],
 [("reference counts","lib/context.c dx_context_incref/decref, dc_putcontext"),("destroyed state guard","lib/include/context_private.h")])
p("C11","A collection yields its contexts in push order, each with a reference",
 "A collection delivers the contexts pushed into it in push order and then reports exhaustion, reset starts over, its size is the number of contexts that are still alive, and contexts destroyed meanwhile are skipped. Each delivered context carries a reference of its own, so finishing the collection or releasing the context in any order is safe.",
 ["histories"],"every sequence of push, next, reset, size, finish and context destruction",
 "Tests iterate one untouched collection from start to end.",
 ["lib/collection.c"],[("coalescing iteration","lib/collection.c")])
p("C12","Comparison reports a conflict exactly when two trees differ, and where",
 "Comparing two configs, sections or keyvals says they are equal exactly when they hold the same elements with the same counts, per-name order, types and values; comparing two molds likewise for elements, types, defaults, documentation and restrictions in their order (versions of configs and of elements are not compared). Otherwise it reports a conflict with one report line for each difference, naming the element when entries or values differ, and no line when equal. Comparison is symmetric in its verdict and changes neither side.",
 ["inputs","configurations"],"every pair of config or mold trees over the same or different molds",
 "Tests compare pairs differing in one chosen place.",
 ["lib/compare.c","lib/util.c"],
 [("recursive comparison","lib/compare.c"),("value comparison","lib/util.c dx_value_compare")])
p("C13","Updating a config keeps user values and adopts only what the mold changed",
 "Updating a config to a newer mold version produces a config of that version holding every entry of the old one that version has room for, in which every value whose default did not change is the user's, every untouched value has the default active at the new version, and every value the user changed whose default changed too is decided by the caller's resolution. A conflict, showing both values, is raised exactly for the latter and for a kept value the new version no longer allows, and the update cannot go on until it is resolved. A target older than the config is refused and an equal one is nothing to do.",
 ["histories","configurations","inputs"],"every mold history of defaults, every config with any subset of values modified, every target version and every resolution",
 "Tests drive the update over one mold with flat, unique names and few modified values.",
 ["lib/update.c","lib/disir_import.c"],
 [("three-way merge of old default, new default, value","lib/update.c"),("resolution","lib/update.c disir_update_resolve")])
p("C14","Typed values round-trip, and mistyped or truncated access is refused or bounded",
 "For every value type, reading a value back through the getter of that type returns exactly what was last set, a setter or getter of another type fails and changes nothing, and values compare equal exactly when they are equal. Rendering a value to text never writes beyond the caller's buffer, is terminated within it, reports the needed size, and parsing the full text gives the value back (floats to the six decimals they are rendered with).",
 ["inputs","histories"],"every sequence of typed set/get over every type and boundary value (64-bit extremes, non-finite-free doubles, empty and very long strings) and every buffer size",
 "Tests use small values and ample buffers.",
 ["lib/context_value.c","lib/util.c"],
 [("typed setters/getters","lib/context_value.c"),("stringify and compare","lib/util.c dx_value_stringify / dx_value_compare")])
p("C15","Versions parse, print and order as major.minor",
 "A text is accepted as a version exactly when it starts with two decimal numbers of at most 32 bits joined by one dot (what follows the second number is ignored; no signs or blanks), printing a version and parsing the result gives the same version, and versions are ordered by major then minor for all values, a total order. Printing never writes beyond the buffer and reports a buffer that is too small.",
 ["inputs"],"all pairs of versions and all strings",
 "Tests compare a few small versions.",
 ["lib/util.c"],[("parse/print/compare","lib/util.c dc_version_convert, dc_version_string, dc_version_compare")])
p("C16","A config survives a write and read through the JSON format unchanged",
 "Writing any finalized config as JSON and reading the text with the same mold gives an equal config and the same verdict of validity: same version, same elements with the same values, the elements of each name in their order (texts valid UTF-8 without NUL bytes, finite numbers, every digit of a float kept). Writing never alters the config.",
 ["inputs","configurations"],"every config over every mold, including repeated and nested elements, empty and special-character strings and extreme numbers",
 "Tests round-trip a few built-in molds' default configs.",
 ["lib/fslib/json/json_serialize_config.cc","lib/fslib/json/json_unserialize_config.cc","lib/fslib/json.cc"],
 [("JSON writer","json_serialize_config.cc"),("JSON reader","json_unserialize_config.cc")])
p("C17","A config survives a write and read through the TOML format unchanged",
 "Writing any valid finalized config as TOML and reading the text with the same mold gives an equal config: same version, same elements with the same values, the elements of each name in their order (texts valid UTF-8 without NUL bytes, finite numbers, every digit of a float kept). Writing never alters the config.",
 ["inputs","configurations"],"every config over every mold, including repeated and nested elements, empty and special-character strings and extreme numbers",
 "Tests round-trip a few built-in molds' default configs.",
 ["lib/fslib/toml/toml_serialize.cc","lib/fslib/toml/toml_unserialize.cc","lib/fslib/toml.cc"],
 [("TOML writer","toml_serialize.cc"),("TOML reader","toml_unserialize.cc")])
p("C18","A mold survives a write and read through the JSON format unchanged",
 "Writing any valid mold as JSON and reading it back gives a mold that describes the same configs: same version, elements, nesting, types, defaults with their versions, and restrictions with values and introduced/deprecated versions. Of the documentation of an element the newest text is kept, without its version (an empty one not at all).",
 ["inputs","configurations"],"every mold",
 "Tests round-trip a few built-in molds.",
 ["lib/fslib/json/json_serialize_mold.cc","lib/fslib/json/json_unserialize_mold.cc"],
 [("mold writer","json_serialize_mold.cc"),("mold reader","json_unserialize_mold.cc")])
p("C19","Stored config entries read back as last written; removal and listing are exact",
 "For every history of writes, reads, queries, listings and removals on a file-backed group, reading an entry returns the config last written under that id, an entry is reported existing and listed exactly when it is stored and has a mold, a removed entry no longer exists, and one entry's operations never affect another. Refused operations (no mold, unknown group, missing entry, an id no file can have) report why and leave the store untouched.",
 ["histories"],"every sequence of write/read/query/list/remove over several ids, nested ids and groups",
 "Tests exercise one entry at a time, mostly with the in-memory test plugin.",
 ["lib/disir_config.c","lib/disir_mold.c","lib/fslib/write.c","lib/fslib/read.c","lib/fslib/query.cc","lib/fslib/filepath.c"],
 [("entry path construction","lib/fslib/filepath.c"),("write/remove","lib/fslib/write.c"),("listing","lib/fslib/query.cc")])
p("C20","Operations are routed to the right plugin of the right group",
 "With several plugins registered, an operation naming a group is only ever served by plugins of that group: reads and queries are answered by the first registered one that has the entry, writes and removals go to the first registered one, and listings are the union with each id once, as the first plugin shows it. A group nobody serves is refused (its listings are empty), as is what the responsible plugin does not implement.",
 ["configurations","histories"],"every registration order of plugins over groups and every placement of entries in them",
 "Tests register one plugin per group.",
 ["lib/disir_config.c","lib/disir_mold.c","lib/disir_plugin.c"],
 [("plugin queue walk","lib/disir_config.c"),("mold lookup","lib/disir_mold.c")])
p("C21","Namespace molds and mold overrides apply to exactly the entries they cover",
 "An entry's mold is its own mold file if present and otherwise the namespace mold of its directory; an override file changes exactly the defaults it names: at the entry's version-mapped point a new default is added or the equal-version one replaced, older ones are left alone, and anything unknown, mistyped or newer than the mold is refused. Listing molds shows namespace molds as directories and never shows override files as entries of their own.",
 ["inputs","configurations"],"every arrangement of mold, namespace and override files and every override document",
 "Tests use one namespace tree and a few fixed overrides.",
 ["lib/fslib/query.cc","lib/fslib/namespace.cc","lib/fslib/read.c","lib/fslib/json/json_mold_namespace_override.cc"],
 [("namespace resolution","lib/fslib/query.cc"),("override application","json_mold_namespace_override.cc")])
p("C22","What is exported to an archive imports back as the same configs",
 "Every config entry appended to an archive and finalized is found again when the archive is imported, under the same group and entry id, with the same version and equal content, and nothing else is found. Appending refuses duplicates, unknown groups and unknown entries without altering what the archive already holds, including when an existing archive is extended.",
 ["histories","inputs"],"every sequence of append-entry, append-group, extend and finalize over several groups and entries",
 "Tests export a fixed group once and check one or two statuses.",
 ["lib/disir_export.cc","lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_import.c"],
 [("entry map and duplicate check","lib/disir_export.cc"),("archive writing","lib/disir_archive_util.cc"),("import reading","lib/disir_archive.cc")])
p("C23","Import classifies each entry exactly and writes only what was resolved",
 "Each archive entry is classified against the system as importable, conflicting, differing in version, invalid or not importable by the documented rules; a resolution is accepted only for the classes that allow it. Finalizing with import writes exactly the entries that were resolved, each becoming the stored config, reports every entry once with its outcome, and leaves all other stored entries as they were; discarding writes nothing.",
 ["histories","configurations"],"every combination of archive entry, stored entry, mold version and resolution sequence",
 "Tests cover single entries and a few resolution choices.",
 ["lib/disir_import.c"],
 [("status determination","lib/disir_import.c"),("resolution table","lib/disir_import.c disir_import_resolve_entry"),("finalize","lib/disir_import.c disir_import_finalize")])
p("C24","Finalizing an archive never loses an archive that already existed",
 "For every failure or process death at any file operation while an archive is being finalized, an archive that existed before is afterwards still readable with its old content, or its new content, at its path or at the backup beside it; success is only reported when the complete new archive is at the requested path. A path that is empty, ends in a slash, is too long or names a missing directory is refused with the archive handle and the filesystem left as they were.",
 ["crash_points","fault_sequences"],"every failing or crashing point among the file operations of finalize, for new, extended and overwritten archives, under every spelling of the paths",
 "No test injects failures or crashes.",
 ["lib/disir_export.cc","lib/disir_archive_util.cc"],
 [("backup, copy, remove protocol","lib/disir_archive_util.cc dx_archive_disk_append"),("path checks","lib/disir_export.cc")])
p("C25","Archive operations clean up and stay inside their scratch directory",
 "After an archive handle or import is finalized or discarded, on success or failure, no temporary file or directory of it is left and all its memory and descriptors are released. Importing any archive, including malformed or hostile ones, never creates, changes or removes anything outside its own temporary directory, and a malformed archive is refused with an error.",
 ["inputs","fault_sequences"],"every archive file content (entry names, metadata, truncated or foreign archives) and every sequence of export/import calls",
 "Tests import well-formed archives and do not look at leftovers.",
 ["lib/disir_archive.cc","lib/disir_archive_util.cc","lib/disir_import.c"],
 [("extraction","lib/disir_archive_util.cc dx_archive_extract"),("folder removal safeguard","lib/disir_archive_util.cc")])
p("C26","Reading hostile or malformed config and mold files is safe and reported",
 "Reading any byte sequence as a config or mold terminates with either a context tree that obeys the mold rules or an error, without crashing, corrupting or leaking memory. A document whose version is malformed or newer than the mold is refused, one without a version is invalid as JSON and of version 1.0 as TOML. Entries the mold does not know, or with values of another type, make the config invalid and are listed as such rather than silently dropped or accepted, and an entry of another kind than the mold's (a keyval for a section, say) refuses the document.",
 ["inputs"],"every byte sequence and every structurally valid document with any entry missing, duplicated, mistyped or unknown",
 "Tests feed a few malformed documents.",
 ["lib/fslib/json/json_unserialize_config.cc","lib/fslib/json/json_unserialize_mold.cc","lib/fslib/toml/toml_unserialize.cc"],
 [("JSON readers","lib/fslib/json"),("TOML reader","lib/fslib/toml")])
p("C27","Documentation is attached and retrieved by version",
 "Documentation added to a mold, section, keyval or restriction is returned for a version exactly as the entry with the greatest introduced version not above it (the newest when no version is given), config elements report their mold's documentation, and at most one entry per introduced version is accepted.",
 ["inputs","histories"],"every sequence of documentation additions in any order and every requested version",
 "Tests add one entry per context.",
 ["lib/context_documentation.c"],[("ordered documentation queue","lib/context_documentation.c")])
p("C28","Error messages are retained, bounded and cleared",
 "The error text last set on an instance is what is reported until it is replaced or cleared, copying it out never writes beyond the caller's buffer, always terminates it, reports the full length and says when it was truncated (a truncated copy ends in three dots). An error text may quote the one it replaces; with no error set nothing is reported and no call crashes.",
 ["histories","inputs"],"every sequence of set, clear, read and copy with every message length and buffer size",
 "Tests copy short messages into ample buffers.",
 ["lib/error.c","lib/log.c"],[("error copy","lib/error.c")])
p("C29","An interrupted write or removal leaves an entry whole: as it was or new",
 "For every failure of a file operation, every full disk and every process death while a config or mold entry is written or removed, the entry is afterwards as it was before or exactly what the undisturbed call makes of it, never something in between, and no other entry is affected. A call that reports failure has left the entry as it was and no temporary file behind; a call that reports success has made the whole change. What an interrupted write left behind is never taken for an entry.",
 ["crash_points","fault_sequences","histories"],"every failing or crashing point among the file operations of a write or removal, at any point of any history of the store",
 "No test injects failures or crashes into entry writes.",
 ["lib/fslib/write.c","lib/fslib/json/json_serialize.cc","lib/fslib/toml/toml_serialize.cc"],
 [("temporary file and rename","lib/fslib/write.c")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(os.path.join(here,"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
