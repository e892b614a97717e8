HOW = {
'C01': "ResourceList.compare runs on two lists of symbolic entries; for each entry the solver must show it is in exactly the result its presence and an independent formula for 'matching metadata' demand, with the right side's attributes, and that the inputs are as before. The URIs are symbolic strings, so every interleaving of the merge is a path.",
'C02': "Client.baseline_or_audit runs against a modelled web and file system with symbolic listed and actual metadata; the resulting tree (content, times, presence) is compared with that demanded, then an audit runs on the result. Oracle: the matching formula of C01/C21, not the code's.",
'C03': "The same scenarios with audit or dry run; the list of file-changing calls recorded by the environment must be empty, state file included.",
'C04': "Client.incremental on symbolic change lists; oracle is a fold over the list in order from the start time.",
'C05': "Map and Mapper on symbolic prefixes and queries, oracle by plain string operations (prefix test and concatenation); default destinations likewise.",
'C06': "A sync with a listed URI of arbitrary characters after the prefix; every file-changing call recorded must be inside the destination of the mapping that covers the URI, after lexical normalization.",
'C07': "Mapper.unsafe and the refusals of the client on symbolic local paths; oracle: component-wise comparison of the normalized absolute paths.",
'C08': "UrlAuthority on symbolic server names, ports and paths; oracle by string comparison on label and component boundaries.",
'C09': "Syncs over lists of which one entry has a symbolic URL; refused runs may have made no request for a resource and no change.",
'C10': "str_to_datetime on every text up to 28 characters (each position a symbolic character) against a grammar written as a recursive matcher and calendar arithmetic; datetime_to_str against the same arithmetic; both inverses.",
'C11': "Every list class is filled with symbolic entries, written (as text or file, plain and pretty, indexes too) and read back; the attributes must be equal. The document is compared as a tree, the bytes are left to the library (validated natively).",
'C12': "Sitemap.parse_xml and the list readers on symbolic documents (elements present, repeated, empty, in any order; texts symbolic); accepted exactly if an independent description of well-formed documents accepts.",
'C13': "Lists of symbolic size and limits are written in parts; parts and index are read back as trees, and through the reader, and compared with the entries.",
'C14': "ResourceListBuilder scans modelled trees whose node kinds, names and metadata are symbolic; oracle: recursive walk over the same description.",
'C15': "Dump writes to a modelled ZIP library with symbolic sizes and limits; archives, members and manifests are compared with the resources.",
'C16': "Histories of set, get and clear operations on ClientState with symbolic names and times, through the real configparser code executed symbolically.",
'C17': "Baseline and incremental syncs with faults; the state file after the run is compared with the latest applied time, and a second incremental run must miss no change.",
'C18': "A symbolic sequence of outcomes per attempt is served; requests, result, file content and counts are compared with a small automaton.",
'C19': "prune_dupes and prune_updates_before on symbolic lists against direct definitions over the series of each URI.",
'C20': "write_change_list between symbolic lists; the entries of the document are applied to the old list and compared with the new one.",
'C21': "Resource.equal and related methods on two symbolic resources: symmetry, reflexivity, and the definition as formula.",
'C22': "Copying constructors, dates and hash strings with every attribute absent or symbolic.",
'C23': "Sequences of additions to the list classes; uniqueness, replacement, iteration order, capability order.",
'C24': "Every combination of answers of the documented places; the resource list used and the requests made are compared with the documented search.",
'C25': "Sequences of requests through url_or_file_open with settings changed in between; the requests the modelled library saw (headers, time-outs) and the sleeps are compared with the settings at that time.",
'C26': "Hashes over symbolic bytes and blocks; comparison and reports with every set of requested and listed types. Digests are injective tokens of the content.",
'C27': "Parsers on every option text up to the bound against an independent splitter.",
'C28': "Histories of link operations with symbolic relations and targets against a list model.",
'C29': "Explorer methods with modelled input, web and files; the text shown is matched against expected and actual values.",
'C30': "main() of each script runs with symbolic option values put into the namespace the real parser built from the option names; the operation called and all settings of the client at that moment are compared with a table of the documented defaults.",
'C31': "Client.write_* with symbolic requests; the document (as tree) and where it went are compared with what was asked for.",
'C32': "Status lines logged in audit, baseline and incremental runs are compared with the counts that follow from the scenario (sums of solver terms).",
'C33': "Client.parse_document and the display of reference lists on symbolic documents; lines shown compared with type, number and first entries.",
'C34': "Event lines logged in baseline and incremental runs against the actions that the scenario makes succeed.",
'C36': "init_logging runs with stand-ins for loggers and handlers that deliver by level and propagation; the severity of the message is symbolic and the solver decides where it must appear. The formatter's time is compared with a symbolic number of seconds. A sync runs with the same stand-ins.",
'C35': "Two clients in one path: one publishes a symbolic tree, the other follows it through a web that serves the files just written; then the tree changes, a change list is published and followed. Destination and source are compared directly.",
}
