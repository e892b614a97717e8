#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Comparing two resource lists partitions their URIs exactly",
 "Comparing a destination list with a source list puts every URI that occurs in either list into exactly one of four results: 'same' if in both with matching metadata, 'updated' if in both with conflicting metadata, 'deleted' if only at the destination, 'created' if only at the source. The entries returned carry the source's metadata for updated and created and the destination's for same and deleted. Neither input list is altered.",
 ["inputs"], "every pair of lists: URIs, timestamps, lengths and hashes present or absent on either side",
 "Tests compare a handful of hand-made lists; the merge walks two orderings, and an error needs a particular interleaving of URIs or a particular combination of missing metadata.",
 ["resync/resource_list.py", "resync/resource.py"],
 [("ordered merge of both lists", "ResourceList.compare"), ("equality of entries", "Resource.equal"), ("URI order iteration", "SortedIterMixin.sorted_iter")],
 ["the four lists returned"])

prop("C02", "Baseline sync makes the destination match the source",
 "After a baseline sync that reports no error, whatever earlier syncs the process has made, every resource of the source list is at the path the mapping gives it, with the content the source served if it was missing or differed before, untouched if it already matched, and with the listed modification time (whole seconds) whenever it was fetched. With deletion allowed, files whose URI is not in the source list are gone; without it no existing file is removed. An immediately following audit of the same unchanged source reports the two sides in sync whenever every listed resource has a modification time and correct size and nothing was left to delete.",
 ["inputs", "configurations"], "every source list and destination content, with deletion allowed or not, and every choice of comparison metadata",
 "Tests sync two or three fixed local files; the convergence claim is over every combination of presence, size, time and hash on both sides.",
 ["resync/client.py", "resync/resource_list.py", "resync/resource_list_builder.py", "resync/mapper.py"],
 [("plan by comparison", "Client.baseline_or_audit"), ("fetch and set times", "Client.update_resource"), ("delete", "Client.delete_resource")],
 ["files under the destination", "status reported"])

prop("C03", "Audit and dry run change nothing",
 "An audit, and a baseline or incremental synchronization in dry-run mode, never create, change or remove any file or directory of the destination and never change the stored synchronization state. This holds whatever the source lists, whether or not deletion is allowed, and whatever the destination holds.",
 ["inputs", "configurations"], "every source list or change list, destination content, stored state and option setting",
 "Tests look at the log of one or two dry runs; they do not look at the file system or stored state for every kind of planned action.",
 ["resync/client.py", "resync/client_state.py"],
 [("dry-run tests before each effect", "Client.update_resource, Client.delete_resource"), ("audit returns before acting", "Client.baseline_or_audit")],
 ["every call that changes the file system"])

prop("C04", "Incremental sync applies the net effect of the changes since its start time",
 "An incremental sync that reports no error leaves every resource with a change dated at or after the start time in the state of its last such change in list order (content fetched from the source if created or updated, absent if deleted and deletion is allowed, not fetched at all if created and then deleted), and leaves all other destination files alone. It removes files only if deletion is allowed, and aborts with an error, changing nothing, if any change has no time (the change's datetime, under version 1.0 its modification time) or if there is neither a start time nor a stored one. The start time given explicitly takes precedence over the stored one, and entries dated before the start are ignored.",
 ["inputs", "histories", "configurations"], "every change list (order, repeated URIs, times, change types), start time, stored time and destination content",
 "Tests run one or two fixed change lists; the net effect depends on order, repeats and boundary times.",
 ["resync/client.py", "resync/change_list.py", "resync/resource_container.py"],
 [("start time selection", "Client.incremental"), ("removal of older entries", "ChangeList.prune_updates_before"), ("removal of superseded entries", "ResourceContainer.prune_dupes"), ("apply", "Client.update_resource, Client.delete_resource")],
 ["files under the destination"])

prop("C05", "URI to path mapping is literal, prefix-bounded and invertible",
 "A mapping translates a URI to a path exactly when the URI equals its source prefix (taken as the prefix and a slash) or continues it with a slash, by replacing the prefix and keeping the remainder character for character, and translates paths back in the same way, whatever characters the prefixes contain; the one exception is a URI whose remainder climbs out of the destination through '..' components, which is refused. With several mappings the first one that applies is used and, for a mapping on its own, mapping there and back returns the original. Anything no mapping covers is refused with an error rather than translated, and giving the same source prefix or destination path twice is refused. When only a source is given, a default destination is made up: a local path stands for itself, and for a web source it is a single ordinary name in the current directory (never the root, the current or the parent directory), a source that gives no such name being refused.",
 ["inputs", "configurations"], "every source prefix, destination path and query string, including characters special in patterns, trailing slashes and newlines",
 "Tests use plain host/path strings; the failure needs a metacharacter, a boundary or a nearly matching prefix.",
 ["resync/mapper.py"],
 [("translate", "Map.src_to_dst, Map.dst_to_src"), ("order and refusal", "Mapper.src_to_dst, Mapper.dst_to_src"), ("argument parsing", "Mapper.parse")],
 ["translated strings"])

prop("C06", "Synchronization stays inside the destination",
 "A baseline or incremental sync never writes, re-times or deletes a file, and never creates a directory, outside the destination directory of the mapping that covers the resource, whatever URIs the source lists. Resources whose translated path would leave that directory (for example through '..' components) are refused.",
 ["inputs"], "every resource URI in a resource list or change list, for every change type",
 "No test lists a URI with parent-directory components; the guarantee is against arbitrary remote input.",
 ["resync/mapper.py", "resync/client.py"],
 [("translation of URIs to paths", "Map.src_to_dst"), ("effects", "Client.update_resource, Client.delete_resource")],
 ["every path passed to a call that changes the file system"])

prop("C07", "Overlapping local source and destination are always refused",
 "When the source of a mapping is a local path (with or without an explicit file scheme) and source and destination are the same directory or one contains the other, the mapping is reported unsafe and baseline and incremental sync refuse to start before changing anything. A mapping from a web source is never reported unsafe.",
 ["inputs", "configurations"], "every pair of source and destination paths, including '.', '..', doubled and trailing slashes",
 "Tests try a few plain pairs; normalization and prefix tests go wrong on particular spellings.",
 ["resync/mapper.py", "resync/client.py"],
 [("overlap test", "Map.unsafe, Mapper.unsafe"), ("refusal", "Client.baseline_or_audit, Client.incremental")],
 ["answer of the safety test", "effects of a sync attempt"])

prop("C08", "Authority over a URL follows scheme, host and path hierarchy",
 "A document at one URL has authority over another URL exactly when the schemes are equal and the other server is the same or a sub-domain on a label boundary; in strict mode the directory of the other URL's path must in addition be the document's directory or lie below it on a path-component boundary (servers in lower case, paths without dot segments). Authority is never granted to a server that merely ends with the same letters, or to a sibling path that merely starts with the same letters.",
 ["inputs"], "every pair of URLs, in lax and strict mode",
 "Tests enumerate about thirty hand-picked pairs; boundary errors need a look-alike host or path.",
 ["resync/url_authority.py"],
 [("decision", "UrlAuthority.has_authority_over"), ("master decomposition", "UrlAuthority.set_master")],
 ["decision returned"])

prop("C09", "A list naming resources outside its authority aborts sync before any effect",
 "Unless authority checking is switched off, a baseline or incremental sync whose resource list or change list mentions any resource that the list has no authority over stops with an error (in a dry run too) before any file is fetched, written or deleted and before the stored state changes. This holds at every position in the list, for every change type, for a default or an explicitly given change list, and in strict mode as well as lax mode, whenever there is anything to do; the list is judged by the location configured or given for it. With authority checking switched off no resource is refused for this reason.",
 ["inputs", "configurations"], "every list with authorized and unauthorized entries in any position, with default or explicit list location, lax, strict or disabled checking",
 "Tests cover one refused list; whether the check covers every entry, path and option combination is not sampled.",
 ["resync/client.py", "resync/url_authority.py"],
 [("check before acting", "Client.baseline_or_audit, Client.incremental"), ("decision", "UrlAuthority.has_authority_over")],
 ["effects before the error"])

prop("C10", "W3C datetimes parse strictly and round-trip",
 "Exactly the W3C datetime forms (year; year-month; date; date and time to minutes, seconds or fractions with Z or a numeric offset, all fields in range) are accepted, everything else raises a value error, and the accepted value is the instant the string denotes in UTC, whatever the local time zone. Formatting a time and parsing it back gives the same instant to the microsecond, and formatting produces Z notation.",
 ["inputs"], "every string up to the bound and every representable time from 1970 on",
 "Tests check some forty strings; a wrong accepted form or a rounding slip is one string in a large space.",
 ["resync/w3c_datetime.py"],
 [("parse", "str_to_datetime"), ("format", "datetime_to_str")],
 ["value or error returned"])

prop("C11", "Documents written are read back with the same content",
 "Writing a list and reading the document back yields the same resources in the list's order with the same URI, modification time, change time, length, type, hashes, change type, path, capability, at/completed/from/until times and links, and the same top-level metadata and links. Under version 1.0 the change time is carried as the modification time when none is given; under version 1.1 with the lastmod option both are written. Nothing absent before is invented and no value moves to another field or another resource. Link attributes come back under the names the reader uses.",
 ["inputs", "configurations"], "every combination of present and absent attributes and their values, for lists of up to the bound, under both versions and option settings",
 "Tests compare a few literal documents; a field mix-up or loss shows only for the combination that uses it, and many of these tests fail here for unrelated reasons.",
 ["resync/sitemap.py", "resync/resource.py", "resync/list_base.py"],
 [("write", "Sitemap.resources_as_xml, Sitemap.resource_etree_element"), ("read", "Sitemap.parse_xml, Sitemap.resource_from_etree"), ("attributes", "Sitemap.md_from_etree, Sitemap.ln_from_etree")],
 ["resources read back"])

prop("C12", "Structurally invalid documents are rejected",
 "Reading rejects with a parse error any document with a wrong root element, more than one location, modification time or metadata element in an entry, a missing or empty location, a change type outside created/updated/deleted, a non-integer length, a link without target or relation or with a priority that is not an integer from 1 to 999999, more than one top-level metadata element, or top-level metadata or links after the first entry. Reading a document as a capability rejects it if it declares another capability, or none (a missing one is tolerated only for resource lists), and index and plain documents are never taken for each other. Unknown elements and attributes are ignored and every document without such a fault is accepted.",
 ["inputs"], "every document tree up to the bound: order and multiplicity of elements, presence and values of attributes",
 "Tests hold one literal document per fault; the order and multiplicity rules are over all trees.",
 ["resync/sitemap.py", "resync/list_base.py", "resync/list_base_with_index.py"],
 [("structure checks", "Sitemap.parse_xml, Sitemap.resource_from_etree"), ("attribute checks", "Sitemap.md_from_etree, Sitemap.ln_from_etree")],
 ["acceptance or error, error class"])

prop("C13", "Splitting a large list into parts and an index loses and repeats nothing",
 "When a list has more entries than the allowed maximum it is written as an index and parts such that every entry is in exactly one part, in order, no part exceeds the maximum or is empty, the index names exactly the written parts at their mapped URIs, and every part links back to the index; otherwise a single plain document is written. The separately generated index and parts describe the same split, asking for a part beyond the last is refused, and reading the index back gives the original entries. A list of parts can be written as an index holding exactly its entries. With multi-part support disabled a too large list is refused with nothing written, and reading an index is refused. Writing does not alter the list, which may be written again.",
 ["inputs", "configurations"], "every list length and maximum up to the bound, lists and iterators, multi-part allowed or not",
 "Tests split lists of 3 or 4 with maximum 2; the boundary cases (maximum 1, exact multiples) are not covered.",
 ["resync/list_base_with_index.py"],
 [("chunking", "ListBaseWithIndex.get_resources_chunk"), ("writing", "ListBaseWithIndex.write"), ("strings", "ListBaseWithIndex.as_xml_index, as_xml_part, requires_multifile"), ("reading", "ListBaseWithIndex.read, read_component_sitemap")],
 ["files written and their entries"])

prop("C14", "A disk scan lists every regular file exactly once with correct metadata",
 "Building a resource list from disk yields one entry for every regular file in the scanned directories that is not a symbolic link, not excluded by name and not below an excluded directory, and no other entry; special files such as pipes are not listed. Each entry has the URI the mapping gives for that file, its modification time, its size if sizes are requested, its digests exactly for the requested hash types, and its local path if paths are requested.",
 ["inputs", "configurations"], "every directory tree up to the bound (names, nesting, links, sizes, times), exclude patterns and option settings",
 "Tests scan a few fixture directories; interactions of exclusion, links and nesting are not covered.",
 ["resync/resource_list_builder.py", "resync/hashes.py"],
 [("walk and prune", "ResourceListBuilder.from_disk_add_path"), ("entry", "ResourceListBuilder.add_file"), ("exclusion", "ResourceListBuilder._exclude")],
 ["entries of the list"])

prop("C15", "A dump holds every resource once, in limits, where its manifest says",
 "Writing a dump puts every resource's file in exactly one archive, in order, starting a new archive only when the current one has reached the file limit or size limit, and each archive holds a manifest listing exactly its resources with the archive path under which each file is stored; a copy of that manifest is written beside each archive if asked for, and not otherwise. Archive paths within an archive are distinct, relative to the common directory of all files (or its parent, if a file would otherwise take the manifest's place), and contain no parent-directory component. A resource without a local file, with a wrong declared length or larger than the limit is refused, as is an unknown archive format, before any archive is written.",
 ["inputs", "configurations"], "every list of files (paths, sizes, declared lengths) and limits up to the bound",
 "Tests dump a few fixture files in one directory; directory names with common leading letters and limit boundaries are not sampled.",
 ["resync/dump.py"],
 [("pre-check", "Dump.check_files"), ("partition", "Dump.partition_dumps"), ("archive and manifest", "Dump.write_zip, Dump.archive_path")],
 ["archive members and manifests"])

prop("C16", "Stored synchronization times are kept per source, exactly",
 "After a time is stored for a source, reading that source returns exactly that time and, after storing nothing, reports none; reading a source never stored reports none. Storing or clearing one source leaves what is stored for any other source unchanged, for sources whose names differ in any letter or digit, also when it fails or is interrupted at any point of writing the state, which leaves its own time as it was before or as it was to be stored.",
 ["histories", "inputs"], "every sequence of store, clear and read operations over source names and times",
 "Tests store and read two names once; isolation is over all pairs of names and histories.",
 ["resync/client_state.py"],
 [("store", "ClientState.set_state"), ("read", "ClientState.get_state"), ("name encoding", "ClientState.config_site_to_name")],
 ["value read back"], [("state file", "last source time per site", ".resync-client-status.cfg")])

prop("C17", "The stored time never passes a change that was not applied",
 "If a baseline or incremental sync ends with an error, the stored time is what it was before. If it succeeds without dry run and fetched or removed anything, the stored time afterwards is, for a baseline, the latest listed time among the entries it fetched and, for an incremental sync, the latest change time of the list, so that a later incremental sync neither misses nor needlessly repeats changes; if nothing was done it stays as it was. Times of files that exist only at the destination, or of earlier syncs made with the same client object, never count.",
 ["fault_sequences", "inputs"], "every list and every pattern of download failures and time-outs",
 "Tests never fail a download in the middle of a sync and then look at the stored state.",
 ["resync/client.py", "resync/client_state.py"],
 [("tracking", "Client.last_timestamp in update_resource, delete_resource, incremental"), ("recording", "Client.baseline_or_audit, Client.incremental")],
 ["stored time"])

prop("C18", "Downloads are retried on time-out only, up to the limit, and never half-counted",
 "A download that times out is attempted again until it succeeds or the configured number of tries is used up, and any other I/O error, of the source or in making the local file or its directory, is not retried; each outcome other than success ends the sync with an error or, if failures are to be ignored, is skipped with the remaining resources still processed. After success the file holds exactly the content served by the last attempt and its modification time is the listed time in whole seconds. A resource is counted and logged as changed only if its download succeeded, and in a baseline only such a resource advances the remembered time.",
 ["fault_sequences", "inputs"], "every sequence of successes, time-outs (at opening or part-way) and I/O errors, every number of tries",
 "Tests simulate one or two failures; sequences and part-way failures are not enumerated.",
 ["resync/client.py"],
 [("retry loop", "Client.update_resource")],
 ["attempts made, file content, error raised"])

prop("C19", "Pruning a change list keeps exactly the net changes",
 "Removing duplicates keeps for each URI only its last entry, drops a URI entirely exactly when it has more than one entry and its first is a creation and its last a deletion, preserves order and reports the number removed. Removing entries before a time keeps exactly the entries dated at or after it, preserves order, reports the number removed and refuses lists with undated entries, using the change time or, under version 1.0, the modification time.",
 ["inputs", "histories"], "every sequence of changes up to the bound",
 "Tests try five fixed sequences; the rule is over all sequences of changes.",
 ["resync/resource_container.py", "resync/change_list.py"],
 [("duplicates", "ResourceContainer.prune_dupes"), ("time", "ChangeList.prune_updates_before")],
 ["remaining entries, returned count"])

prop("C20", "A generated change list transforms the old state into the new",
 "The change list written for an old and a new resource list contains exactly one entry for every URI whose presence or metadata differs (times by a second or more) and none for others, marked created, updated or deleted accordingly and carrying the new metadata (for deletions the old), so that applying it to the old list gives the new list. A change list accepts only entries with a change type and keeps their order; invalid change types are refused.",
 ["inputs"], "every pair of resource lists up to the bound",
 "Tests build change lists from one pair of lists.",
 ["resync/client.py", "resync/change_list.py", "resync/resource_list.py"],
 [("difference", "Client.write_change_list, ResourceList.compare"), ("entries", "ChangeList.add, ChangeList.add_changed_resources"), ("validity", "Resource.__setattr__")],
 ["entries of the change list"])

prop("C21", "Resource equality is symmetric and means no known difference",
 "Two resources are equal exactly when their URIs are equal, their times are both absent or differ by less than the tolerance (one second for ==; exactly equal times when no tolerance is given), and every hash and length known for both agrees. Equality is reflexive and symmetric, also for entries with missing metadata, and a resource is never equal to nothing.",
 ["inputs"], "every pair of resources, each attribute present or absent, and every tolerance",
 "Tests try a dozen pairs; symmetry and the default tolerance are not tested over combinations.",
 ["resync/resource.py"],
 [("equality", "Resource.equal, Resource.__eq__")],
 ["answer returned"])

prop("C22", "Resource copies and hash strings keep every attribute",
 "Making a resource from another copies every attribute, with explicitly given values taking precedence and the original left unchanged, then and when the copy or its links are changed later. The combined hash string lists exactly the known digests and setting it from a string restores exactly those, clears the others, and reports duplicate or unknown types as an error (keeping the first digest of every known type); change types other than the three defined ones are refused at every way of setting them. The name of a resource is the last component of its URI's path.",
 ["inputs"], "every combination of attributes and overrides, every hash string up to the bound",
 "Tests copy a few resources with few attributes.",
 ["resync/resource.py"],
 [("copy", "Resource.__init__"), ("hash string", "Resource.hash"), ("validity", "Resource.__setattr__")],
 ["attributes of the new resource"])

prop("C23", "Sets of resources hold one entry per URI in canonical order",
 "A resource list, capability list or source description never holds two entries for one URI: adding a second raises an error and leaves the first, unless replacement is asked for, which then keeps only the new one. Iteration yields every entry exactly once: resource lists and source descriptions in URI order (in order of addition for the ordered variety), capability lists in the specified capability order, then URI order, with entries of unknown capability after all others. Looking up a capability returns the entry that declares it, or nothing; looking up a URI returns its entry.",
 ["inputs", "histories"], "every sequence of additions up to the bound",
 "Tests add a few fixed entries in fixed order.",
 ["resync/resource_list.py", "resync/resource_set.py", "resync/capability_list.py", "resync/source_description.py"],
 [("uniqueness", "ResourceListDict.add, ResourceListOrdered.add, ResourceSet.add"), ("order", "SortedIterMixin, ResourceSet.__iter__, CapabilitySet.__iter__"), ("lookup", "CapabilityList.capability_info")],
 ["iteration order and contents"])

prop("C24", "The resource list is looked for in the documented places, in order",
 "An explicitly given resource list or capability list is used or the search fails; otherwise the well-known source description relative to the source and at its host, then resource list and sitemap names relative to the source and at the host are tried in that order and the first one that can be read is used. A source description or capability list that is read but unusable (no or several sources, no resource list) ends the search with an error, while a document it names that cannot be read is no list found, and relative references are resolved against the document that contains them. If nothing is found the search fails with an error, and these rules hold for local paths as for web locations. A list given by name is taken as it is if it is a URI or an absolute path and otherwise below the source, and a list of several parts is read whole, or refused if parts are not allowed.",
 ["inputs", "configurations", "fault_sequences"], "every pattern of which locations exist, are unreadable or unusable, for local and web sources",
 "Tests cover a few of the combinations of present and missing documents.",
 ["resync/client.py"],
 [("search", "Client.find_resource_list"), ("source description", "Client.find_resource_list_from_source_description"), ("capability list", "Client.find_resource_list_from_capability_list")],
 ["locations requested, in order, and list returned"])

prop("C25", "Requests carry the configured token, delay and time-out; local paths stay local",
 "Every request sends the bearer token in its authorization header exactly when a (non-empty) one is configured, identifies the client, and uses the time-out and method asked for. The configured delay is applied before every web request except the first request made and never for local files. A location without a scheme is opened as a local file and one with a scheme is opened unchanged.",
 ["histories", "configurations", "inputs"], "every sequence of requests for local and web locations and every setting of token, delay and time-out",
 "Tests check single requests with one setting each.",
 ["resync/url_or_file_open.py"],
 [("request", "url_or_file_open")],
 ["requests issued and pauses made"])

prop("C26", "Digests cover the whole file and comparison uses exactly the shared hash types",
 "The digest computed for a file is that of its entire content whatever the block size, for exactly the hash types asked for, and unknown types are refused. In a baseline sync or audit with hash comparison requested, two files of equal size and time but different content are found different whenever the source gives a digest of a requested type for the resource, and hash types that were not requested or that the source does not give neither prevent the sync nor make a difference. After a download every mismatch with a listed length or a digest of a requested type is reported, and none otherwise.",
 ["inputs", "configurations"], "every file content length relative to the block size up to the bound, every set of requested types and types present in the source",
 "Tests hash one small file; boundaries and combinations of requested and available types are not covered.",
 ["resync/hashes.py", "resync/client.py"],
 [("digest loop", "Hashes.compute_for_file"), ("types in use", "Client.prune_hashes, ResourceList.hashes"), ("recording", "Hashes.set")],
 ["digests, comparison result"])

prop("C27", "Command-line link, capability and option strings are parsed exactly or refused",
 "A link option of the form rel,href,att=val,... yields exactly those attributes, a capabilities option name=uri,... yields exactly those pairs in order (of several values for one name the last counts), and any other text is refused with a client error naming the option rather than accepted or crashing. Asking for checksums is the same as asking for the md5 hash type, alone or with others.",
 ["inputs", "configurations"], "every option string up to the bound",
 "Tests try about ten strings.",
 ["resync/client_utils.py"],
 [("links", "parse_links, parse_link"), ("capabilities", "parse_capabilities, parse_capability_lists"), ("options", "process_shared_misc_options")],
 ["parsed values or error"])

prop("C28", "Setting a link replaces that relation only",
 "Setting a link relation on a resource or a list makes looking that relation up return the new target and attributes, keeps every other relation's links unchanged and creates no second link for the relation, while adding a link on a resource always appends a further one without changing existing ones. Looking up returns the first link with exactly that relation, or nothing.",
 ["histories", "inputs"], "every sequence of set and add operations over relations and targets up to the bound",
 "Tests set a few fixed relations once or twice.",
 ["resync/resource.py", "resync/resource_container.py"],
 [("resource links", "Resource.link_set, link_add, link"), ("list links", "ResourceContainer.link_set, link")],
 ["links after the operations"])

prop("C29", "The explorer reports expected and actual values truthfully",
 "When the explorer shows a resource's headers it reports, for local files and web resources alike, each known header, marked as matching the expected value exactly when the two denote the same value (dates of web responses to the second) and otherwise showing the expected value. For each document type it offers exactly the entry types the specification allows, flags documents of other types, and resolves relative references against the document that contains them. Exploration starts at the document asked for (an explicit document name; for a local directory the likely file names in it; a local file itself; for a web address the address and then its host's well-known location, where a source description is expected), follows the entry the user picks by its number, and goes back to the previous document on request.",
 ["inputs", "configurations", "histories"], "every document type, entry, and combination of expected and actual header values",
 "Tests mock single responses, with interfaces real responses do not have.",
 ["resync/explorer.py"],
 [("headers", "Explorer.explore_show_head, head_on_file"), ("summary", "Explorer.explore_show_summary, allowed_entries, expand_relative_uri"), ("follow", "Explorer.explore_uri")],
 ["text shown, options offered"])

prop("C30", "Command-line options take effect exactly as documented",
 "Each command-line script (resync-sync, resync-build, resync-explorer) runs exactly the operation its mode option asks for, once, with exactly the settings given on the command line and the documented default for every setting not given (short and long option names alike, and independently of other options given). A command line that names no mode, several contradictory modes, or lacks the source and destination the mode requires runs no operation. An operation that ends with the client's own fatal error ends the script with that error's message, not with a crash.",
 ["inputs", "configurations"], "every mode, every pair of options given together, every value of an option",
 "No unit test runs the scripts; a wrong default or a swapped setting shows only in the combination that uses it.",
 ["resync-sync", "resync-build", "resync-explorer", "resync/client_utils.py", "resync/client.py"],
 [("option tables and dispatch", "main of each script"), ("shared options", "add_shared_misc_options, process_shared_misc_options"), ("settings on the client", "Client attributes")],
 ["operation called, attributes of the client at the call, text written, exit"])

prop("C31", "Documents the client writes carry exactly what was asked for",
 "A resource list, change list, capability list or source description written by the client has the document type asked for, exactly the entries asked for (the files of the mapped directories that are not excluded, with their metadata; the named capability lists under their capabilities; the described URIs; no others), exactly the links given, and goes either to the named file or to standard output and nowhere else. In a capability list or source description made from list objects an entry has the URI and capability of its list and, in a source description, its description. A request that is refused writes nothing.",
 ["inputs", "configurations"], "every set of files, capabilities, URIs, links, hash choices, output choice and pretty-printing",
 "Tests write one example of each kind and look at a fragment of the text.",
 ["resync/client.py", "resync/resource_list_builder.py", "resync/source_description.py", "resync/capability_list.py"],
 [("writing", "Client.write_resource_list, write_change_list, write_capability_list, write_source_description"), ("building", "Client.build_resource_list, ResourceListBuilder")],
 ["document written, files created, standard output"])

prop("C32", "Reported synchronization status is true",
 "The status an audit reports counts the resources that are the same, to be created, to be updated and to be deleted, and says IN SYNC exactly if nothing is to be created, updated or deleted. A baseline sync reports the same plan before acting, and afterwards only what it did: the counts of resources created and updated and of those deleted, or left undeleted because deletion was not allowed, in which case it does not claim to be fully synced. An incremental sync never reports changes as applied before or without applying them, counts them truthfully, and reports NO CHANGES exactly if there were none.",
 ["inputs", "configurations"], "every combination of resources on both sides or changes, with deletion allowed or not, dry run or not",
 "Tests match the status line of one or two fixed runs.",
 ["resync/client.py"],
 [("status line", "Client.log_status"), ("when it is reported", "Client.baseline_or_audit, Client.incremental")],
 ["status lines logged"])

prop("C33", "Inspecting a document shows its type and entries truthfully",
 "Parsing a document on request (from a URI, a local path or through a mapping) shows the type the document declares, the true number of entries and, in verbose mode, its first entries in order up to the limit given (all of them if there are fewer) and no others; without verbose mode it shows none. A reference list shown before a list is written behaves likewise. A document that cannot be read is reported as a client error.",
 ["inputs", "configurations"], "every document type, number of entries, limit and way of naming the document",
 "Tests parse two example documents.",
 ["resync/client.py", "resync/sitemap.py"],
 [("parse mode", "Client.parse_document"), ("reference lists", "Client.read_reference_resource_list")],
 ["text shown"])

prop("C34", "Every action a sync takes is recorded exactly once",
 "For every resource a baseline or incremental sync creates, updates or deletes, exactly one event line (starting 'Event: ', debug level, for automated evaluation) is logged, with the resource's URI and the type of change; nothing that was not done (in a dry run, a failed download, a deletion not allowed or that failed) is recorded.",
 ["inputs", "configurations"], "every combination of planned actions, deletion allowed or not, dry run, failing downloads and failing deletions",
 "Tests look for one event of one update.",
 ["resync/client.py"],
 [("recording", "Client.log_event"), ("actions", "Client.update_resource, Client.delete_resource")],
 ["debug log"])

prop("C35", "A directory published and then synchronized from is copied faithfully",
 "After the client writes a resource list of a directory tree and another client runs a baseline sync from where tree and list are served, the destination holds every file of the tree, with the same content and time in whole seconds, except that a file already there that equals the listed metadata is left alone, nothing else is added, files not in the tree are removed if deletion is allowed and kept otherwise, and an audit then finds both sides in sync. This holds however the list is written (in one document or in parts, pretty or not, with digests or without) and found. After the tree changed and the client wrote a change list against the earlier resource list, an incremental sync (version 1.0, where the modification time dates a change) starting before the changes brings the destination to the new state likewise.",
 ["inputs", "histories", "configurations"], "every source tree, destination content and later change of the tree up to the bound",
 "Unit tests check writer and reader separately, on fixed documents; the guarantee is about both together, over all times, sizes and histories.",
 ["resync/client.py", "resync/resource_list_builder.py", "resync/sitemap.py", "resync/list_base_with_index.py", "resync/change_list.py"],
 [("publish", "Client.write_resource_list, Client.write_change_list"), ("follow", "Client.baseline_or_audit, Client.incremental"), ("document form", "Sitemap.resources_as_xml, Sitemap.parse_xml")],
 ["files under the destination"])

prop("C36", "Messages reach console and log file as configured, dated in UTC",
 "After logging has been set up, every message of any part of the package (or of the further loggers named) appears exactly once on the console if it is a warning or worse, or information in verbose mode, and once in the log file, if one was asked for, when it is information or worse, or anything in evaluation mode; nothing else appears there, messages of other packages are left alone, and without request no log file is opened. The log file is the one named, or else the default, and is appended to; its lines carry the true time in UTC with Z. A sync thus shows its status before and after, its actions in verbose mode, and logs its events in evaluation mode.",
 ["inputs", "configurations"], "every combination of the options, severities and loggers, and every time up to the bound",
 "Tests set logging up once and look for two lines in a file.",
 ["resync/client_utils.py", "resync/client.py"],
 [("setup", "init_logging"), ("time", "UTCFormatter.formatTime"), ("messages", "Client.log_status, Client.log_event")],
 ["console", "log file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
