"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

V="sandfs/vfs.py"; S="sandfs/shell.py"; N="sandfs/nodes.py"; A="sandfs/adapters.py"; PO="sandfs/policies.py"; SE="sandfs/search.py"; SP="sandfs/shell_parser.py"

prop("C01","The virtual tree behaves like a plain hierarchical filesystem",
 "After any sequence of directory creation, write, append, touch, remove, move, copy and change-directory operations, every path's existence, kind, directory listing and file content are exactly those of a plain hierarchical filesystem to which the same operations were applied. Each operation succeeds or is refused exactly when that reference filesystem would, so a move or copy never loses, duplicates or misplaces a file and nothing outside the paths an operation names ever changes.",
 ["histories","inputs"],"all finite histories of tree operations over all path arguments (missing, existing, file-vs-directory clashes, own subtree, root), contents and flags",
 "The existing tests run one operation on a two-file tree; they never move onto an existing entry, copy into the own subtree, or chain operations.",
 [V,N],[("move/copy/remove/mkdir/write_file",V),("add_child/remove_child",N)],["read_file, ls, exists, is_dir, is_file after every operation"],
 [("children maps","the tree",N)])

prop("C02","Every spelling of a path denotes one location inside the sandbox",
 "For every current directory and every spelling of a path (absolute or relative, with repeated slashes, '.', '..', trailing slashes, or more '..' than there are levels), every API call and shell command acts on the location given by collapsing the spelling lexically against the current directory, and '..' at the root stays at the root. Two spellings that collapse to the same location are interchangeable in every operation, and no spelling reaches anything outside the sandbox tree.",
 ["inputs","histories"],"all path strings up to long and deep ones, from all current directories, for all operations",
 "Tests use canonical absolute paths plus one './workspace'; '..' overshoot, '//' and dot segments combined with a current directory are never exercised.",
 [V,S],[("path normalisation",V),("path handling of the commands",S)],["results of each operation under two spellings, on two sandboxes"],
 [("cwd","current directory",V)])

prop("C03","A refused operation leaves no trace",
 "Whenever a single operation on the sandbox (write, append, touch, create directory, move, copy, non-recursive remove, change directory, read) is refused with an error, for whatever reason (policy, version mismatch, storage conflict, failing provider, wrong kind, missing path, clash), the tree, contents, versions, policies, metadata, timestamps, current directory, mounted storage and search results are exactly as before and no event was delivered. A refused recursive remove deletes nothing outside the named subtree, nothing write-protected, and alters no survivor.",
 ["histories","fault_sequences"],"all histories ending in a refused operation, all refusal causes including conflicts and exceptions raised by storage adapters and providers",
 "Tests assert that an error is raised but never look at the state afterwards.",
 [V,A,N],[("checks before mutation; rollback on storage failure",V)],["full state observation before and after every refused operation"])

prop("C04","Versions count writes and a stale version never overwrites",
 "Every successful write or append raises the version seen at its path by exactly one, a missing path counting as version zero; a copy that replaces a file also raises it, and reads, touches of existing files, moves outside storage and refused writes never change it. A write that states an expected version succeeds if and only if that version is the current one (and the write is otherwise allowed), so a writer holding an outdated version can never overwrite a newer content at a path that was not removed in between.",
 ["histories"],"all interleavings of several optimistic writers with plain writes, appends, copies over the file, touches, host commands and refused writes",
 "Tests check versions 1 and 2 of one file; no interleaving with copy, append, touch or several writers.",
 [V],[("version check and increment in write; version carried over by copy",V)],["get_version and acceptance of expected_version after every step"],
 [("version","optimistic version per file",N)])

prop("C05","Write policies are never bypassed",
 "As long as its policy stands, no API call or shell command (including redirection and files synced back from a host command) changes the content of, removes or moves a read-only file or directory, adds, removes or renames an entry directly inside a read-only directory, or does anything to an append-only file but extend its content at the end (moving an unprotected ancestor directory carries protected nodes along unchanged). Conversely a policy never blocks an operation on nodes it does not apply to: siblings and unrelated nodes stay fully usable.",
 ["histories","configurations"],"all histories of API calls and shell commands over trees with arbitrary placements of read-only and append-only policies",
 "Tests try one write to one read-only file; creation inside read-only directories, recursive creation, moves, copies, redirection and host sync are not tried.",
 [V,S,PO],[("write-permission checks",V),("redirection, write/append/rm/mv/cp commands, host sync",S)],["content of protected nodes and entries of protected directories after every step"],
 [("policy","per node flags",PO)])

prop("C06","Contents of unreadable files are never returned",
 "While a file's policy makes it unreadable, no read, search (with or without index), file-reading, searching or copying shell command, or input redirection returns any of its content, a copy of it is just as unreadable, and naming an unreadable directory to list, render or enter it is refused. Files that are readable are still found and returned by the same calls.",
 ["histories","configurations","inputs"],"all trees with arbitrary readable flags set before or after indexing, all reading and searching commands and their flags",
 "Only listing one unreadable directory is tested; grep, rg, search, the index and redirections are never run over unreadable files.",
 [V,S,SE],[("read-permission checks",V),("grep/rg/search/cat/head/tail/wc",S)],["stdout of every command and results of every search, scanned for secret markers"])

prop("C07","A view shows exactly the nodes it allows",
 "A shell restricted by a visibility view never reveals, in the output of any built-in file command (everything but the python, host, bash and sh escape hatches), the content of a file that the view does not allow by classification, principals, path prefix or metadata, nor lists the name of a disallowed node (a directory's name may still occur in the paths of allowed nodes below it); reading a disallowed file is an error. Listing, globbing, reading and searching commands show every node the view allows, and tree and find every allowed node reachable through allowed directories.",
 ["configurations","inputs","histories"],"all combinations of node policies, metadata and views, all read-type commands including copies made by the same shell and search results produced by another shell on the same sandbox",
 "Tests check ls and cat for three views on two files; search, glob, find, tree, copies and shells sharing a sandbox are not crossed with views.",
 [PO,S,V],[("view predicate",PO),("visibility checks of the commands",S),("view filters in ls/tree/glob/search",V)],["stdout of every command against an independent evaluation of the view"])

prop("C08","A view protects hidden nodes from modification",
 "No built-in file command of a shell restricted by a visibility view (everything but the python, host, bash and sh escape hatches), including output redirection, changes, replaces, renames, moves or removes a node which that view hides, whether the node is named directly, through a glob, or lies inside a directory that is named (adding a new entry inside a hidden directory, and directories that fail only a metadata filter, are not covered). Commands on visible nodes have the same effect as in an unrestricted shell.",
 ["configurations","histories"],"all histories of modifying commands over all placements of hidden nodes and all kinds of views",
 "No test modifies anything through a restricted shell.",
 [S,PO],[("visibility checks in rm/mv/cp/write/touch/mkdir/redirection",S)],["hidden nodes' content, policy, version and path after every command"])

prop("C09","A storage mount and its adapter always hold the same files",
 "As long as nobody else writes to the backing store, after every operation on the sandbox (write, append, touch, remove, move and copy of files and directories into, within and out of mounts, host command sync) the adapter holds exactly the files below the mount with the same content and the same version, and re-synchronising changes no content or version. This holds for the in-memory and the directory-backed adapter, for nested mounts (the innermost mount owns a file), and for a fresh sandbox mounted on the same store.",
 ["histories","inputs","configurations"],"all histories of tree operations over mounted and unmounted regions, any text content including carriage returns and non-ASCII text",
 "Tests write and delete a single file; copy, move and touch into a mount, nested mounts and line endings are never tried.",
 [V,A],[("persisting writes/deletes",V),("adapter read/write/list/delete",A)],["adapter.list(), bytes on disk, and the files below the mount after every operation"],
 [("storage mounts","prefix to adapter",V)])

prop("C10","External storage changes are detected, never silently overwritten",
 "If the backing store's copy of a file was overwritten by someone else since it was last loaded or saved through this sandbox, a write to that file through the sandbox is refused and both the external content and the sandbox's content stay as they were. After synchronising, the mount shows exactly the store's current files, contents and versions, files and directories that still exist keep their policies and metadata, everything outside the mount is untouched, and writes are accepted again.",
 ["histories","fault_sequences"],"all interleavings of sandbox operations, external writes, creations and deletions, and synchronisations",
 "One test does a single external write and one conflicting write; contents after the conflict, policies across sync, deletions and repeated conflicts are not examined.",
 [V,A],[("versioned persist and conflict handling, sync",V),("version checks",A)],["adapter and sandbox contents after each step"])

prop("C11","Directory-backed storage never leaves its root",
 "For every path given to the directory-backed adapter (parent references, absolute paths, symbolic links to files or directories inside or outside the root, names that share the root's prefix) and every mount built on it, no read, write, listing or deletion returns, creates, changes or removes anything outside the adapter's root directory. Paths that stay inside the root are served; deleting one removes that entry only (for a symbolic link, the link and not the file it names).",
 ["inputs","configurations","histories"],"all path strings and all arrangements of symbolic links and sibling directories around the root",
 "One test tries '../escape.txt' for writing; symbolic links, listing, reading, deleting and prefix-sharing siblings are not tried.",
 [A,V],[("path containment check",A)],["contents of the area around the root before/after, values returned"])

prop("C12","Restoring a snapshot reproduces the captured state exactly",
 "For every tree and every sequence of operations performed after a snapshot was taken, restoring it succeeds and brings back exactly the captured set of paths with their kinds, contents, versions, policies, metadata and timestamps, and the captured current directory if it still existed when captured; files created since are gone. A snapshot is unaffected by later operations and by restores, can be restored repeatedly and in any order with other snapshots, and search, views and mounts work on the restored tree as they would on a freshly built one.",
 ["histories","configurations"],"all trees (any policies, metadata, mounts, provider-backed nodes, search view), all histories between snapshot and restore, any nesting of snapshots",
 "Tests restore two small in-memory trees without policies, metadata, versions, index or search view, once.",
 [V],[("snapshot/restore",V)],["full state observation at capture and after restore"])

prop("C13","Hooks see every content change exactly once, and nothing else",
 "Every successful change of a file's content or existence below a hooked prefix (write, append, touch that creates, copy, move in or out, remove, recursive remove, host sync) delivers exactly one path event per affected path with the right kind (create, update or delete) and full new content, and every new content also delivers exactly one write event with the full content, the new version and the append flag. Nothing is delivered for paths outside the prefix (a sibling sharing the prefix's text is outside), for reads, or for refused operations, so replaying the events rebuilds exactly the files below the prefix; when an event is delivered the sandbox already shows the change it reports.",
 ["histories","configurations"],"all histories of operations and all sets of hooks with arbitrary (nested, overlapping, exact-file, root) prefixes",
 "Tests replay one create/update/delete on one file; copy, move, recursive remove, prefixes and several hooks are not tried.",
 [V,"sandfs/hooks.py","sandfs/integrations.py"],[("event emission and prefix matching",V),("InboxRecorder","sandfs/integrations.py")],["events recorded by hooks; replica rebuilt from them"])

prop("C14","Search returns exactly the matching lines, indexed or not",
 "For every tree and query (literal or regular expression, case-sensitive or not, any path prefix including a missing one), the search API returns exactly the lines of readable files below the prefix that match (none if the prefix is missing or itself unreadable), each once with its path and one-based line number, and the result is the same with the full-text index enabled at any point in the history as with a live scan. The search command prints exactly these results one per line, and recursive grep over the same path finds the same lines.",
 ["histories","inputs"],"all histories of writes, appends, moves, copies, removes, mounts, syncs and restores before and after enabling the index, all queries",
 "Tests run three queries on three one-line files and one move/copy/remove.",
 [SE,V,S],[("index maintenance and search",V),("index",SE),("search/grep/rg commands",S)],["search() with and without index, command output, against an independent line matcher"])

prop("C15","The search view is the search result, for the asking shell only",
 "For every query given in a search-view path (text, regex, ignore_case, path), listing, walking and reading the search view shows exactly one file per matching file at its path below the view, whose lines are the matching path:line:text triples, limited to the matching files the asking shell's visibility view (by classification, principals or path prefixes that include the search view) allows. Results always reflect the tree at query time, never those of an earlier query, survive restoring a snapshot, are not themselves found by searches, cannot be modified through search-view paths, and a later command of a shell with another view never sees them.",
 ["histories","inputs","configurations"],"all queries and histories of tree changes, restores and queries by shells with different views on one sandbox",
 "Two tests list one file for one query.",
 [V,S],[("search view provider/context",V),("search path parsing",S)],["ls/cat/find/tree/grep on search paths against an independent matcher"])

prop("C16","Executing any command line returns a result and never raises",
 "For every string given as a command line (malformed quoting, unknown commands, missing or forbidden redirection targets, failing providers, bad flags, bad regular expressions, removed current directory) and every shell configuration, execution returns a result with text output and an integer exit code and raises nothing. A failing command yields a non-zero exit code with a message and stops the rest of the pipeline and script, and the shell and sandbox remain usable afterwards.",
 ["inputs","histories","fault_sequences"],"all strings, command grammars and shell configurations, including provider faults during any command",
 "Tests run well-formed commands; failing redirections, globbing in odd directories and provider faults inside pipelines are not tried.",
 [S,SP],[("dispatcher and its error handling",S),("parser errors",SP)],["return value of exec; tree invariants and a probe command afterwards"])

prop("C17","Only allow-listed commands ever run",
 "When a shell is created with an allow-list (even an empty one), no command outside it is ever executed, whether it is a built-in, a registered custom command or a host program reached by fallback, and however its name is written (quoted, via variables, in any pipeline position, on any line, with assignments or redirections); it yields an error exit code and no effect. Allowed commands run as they would in an unrestricted shell.",
 ["inputs","configurations"],"all allow-lists, registered commands, host-fallback settings and command lines",
 "One test tries one disallowed built-in; fallback, pipelines, variables and the empty list are not covered.",
 [S],[("allow-list check in dispatch",S)],["instrumented command handlers, host-process stand-in, sandbox state, exit code"])

prop("C18","Output never exceeds the configured byte limit",
 "With an output limit configured, the standard output and error text of a command line come together to at most that many UTF-8 bytes, or the whole output is withheld and replaced by a short error notice and a failing exit code; none of the oversized text leaks. Output within the limit is delivered unchanged.",
 ["inputs","configurations"],"all limits from zero upward, all outputs (ASCII, multi-byte, stderr, pipelines, scripts, error messages) around the limit",
 "One test with ten ASCII bytes and a limit of five.",
 [S],[("output limit enforcement",S)],["encoded length of stdout+stderr compared with an unlimited shell"])

prop("C19","Pipelines, redirections and variables compose as in a shell",
 "For every pipeline, each command receives as input exactly the previous command's output (or the file named by input redirection), '>' replaces and '>>' extends exactly the named file with the command's output and nothing else, and a failure stops the pipeline before any later command or redirection takes effect. Quoted words, including ones consisting of operator characters, reach the command unchanged; assignments are visible to their own command only or, when alone on the line, to all later lines of that shell; unknown variables expand to nothing.",
 ["programs","inputs"],"all pipelines from a grammar of commands, redirections, quoting styles, assignments and variable references, in scripts of several lines",
 "Tests run one pipe, one redirection and one assignment.",
 [S,SP],[("tokeniser and pipeline parser",SP),("pipeline execution and expansion",S)],["stdout, exit code and file contents against a reference interpreter"])

prop("C20","Reading commands print exactly what the tree holds",
 "For every tree and arguments, cat, head, tail, wc, grep, rg, find, ls, tree, stat, echo, pwd and globs output exactly what their documented meaning gives for the current tree: all and only the requested lines, counts, matches and names (head and tail with any non-negative count including zero; a glob's '*' stays within one path component). They never modify the tree.",
 ["inputs","configurations"],"all trees, contents (empty, no trailing newline, CRLF, multi-byte, long), counts, patterns, flags and several operands",
 "Each command is tested on one file with one or two flag values.",
 [S,V],[("command implementations",S),("ls/tree/glob/iter_files",V)],["stdout against independent reference implementations"])

prop("C21","Provider-backed nodes are computed on demand and fail cleanly",
 "Mounting a provider does not call it; each read of a provider-backed file returns what its provider returns at that moment for that path, and a provided directory is populated on first use exactly with what its provider returned, its static children and policies included. Writing replaces the provider's content for good and appending keeps it as the beginning; a failing provider surfaces as the sandbox's own error, changes nothing and works again once the provider recovers.",
 ["histories","fault_sequences"],"all placements of file and directory providers (nested, with policies), all histories of reads, writes, moves, copies and provider faults",
 "Tests read one dynamic file and list one provided directory.",
 [N,"sandfs/providers.py",V],[("lazy loading and provider calls",N),("mounting",V)],["provider call log, read results, errors"])

prop("C22","A host command syncs back exactly its own file changes",
 "After a host command has run, the sandbox differs from before in exactly the files and directories the command created, changed or deleted in its materialised tree (pipes and dangling links it leaves are neither): every other file keeps its content, version, times and policy whatever its content (carriage returns, non-ASCII, empty), and write-protected nodes keep theirs. The command sees the sandbox's files under their sandbox paths (absolute arguments, relative arguments and working directory) and the shell's variables together with those given to it alone, its output and exit code are returned, and the temporary directory is gone afterwards.",
 ["programs","inputs","configurations"],"all trees and all sequences of file edits performed by the host program, given through relative or absolute paths",
 "Tests run a handful of commands on a two-file ASCII tree.",
 [S,V],[("host bridge, path translation and sync",S),("materialise",V)],["tree before/after, program output, temporary directory"])

prop("C23","Export writes an exact, confined copy and changes nothing",
 "Exporting or materialising any directory produces on disk exactly its files and directories with the same names and bytes (UTF-8), leaves the sandbox unchanged, and writes nothing outside the target directory, whatever names providers supply. A materialised tree is removed when its scope ends, normally or by an error.",
 ["inputs","configurations","fault_sequences"],"all trees (unusual names, contents, provider-supplied names), all sources and targets, errors inside the scope",
 "Tests export three ASCII files.",
 [V,N],[("export/materialise",V),("node names",N)],["the host directory around the target, compared with the tree"])

prop("C24","Python snippets are isolated from the host and from each other",
 "A snippet run by the Python helper gets only the curated built-ins (no file opening, importing or dynamic code evaluation), so plain Python source using those facilities fails without any effect on the host; its effects are those it makes on the sandbox. Nothing a snippet binds or rebinds, including built-in names and names given by the caller, is visible to a later snippet; its printed output is returned exactly, and the process's own standard output is restored even when the snippet fails.",
 ["programs","histories"],"all sequences of generated snippets (assignments, rebinding of built-ins, prints, sandbox calls, host-access attempts, errors)",
 "Tests print two numbers.",
 ["sandfs/pyexec.py",S],[("curated built-ins, fresh globals, captured stdout","sandfs/pyexec.py")],["stdout, globals, host audit events"])

prop("C25","The command line tool is a faithful front end to the shell",
 "Running the tool on a command prints exactly the standard output and standard error, and exits with exactly the exit code, that a sandbox shell built from the same options (mounts, search, host fallback) returns for that command, and files written below a mount are written to the mounted host directory. The interactive mode runs each line in one persistent shell in order, survives failing commands, and ends cleanly on its quit words or end of input.",
 ["inputs","configurations","histories"],"all command strings and scripts, option combinations and mounted directories",
 "Two tests echo one word.",
 ["sandfs/cli.py"],[("exec and shell sub-commands","sandfs/cli.py")],["captured stdout/stderr/exit status against an in-process shell"])

prop("C26","In-memory operation never touches the host",
 "No sequence of sandbox API calls and built-in shell commands other than the explicit bridges (host, bash, sh, host fallback, export, directory-backed storage) opens, lists, creates, changes or deletes anything on the host, starts a process or uses the network. A host file whose path equals a sandbox path is neither seen nor affected.",
 ["histories","inputs"],"all histories of API calls and shell command lines, including paths that exist on the host",
 "Tests only look at the sandbox, never at host accesses.",
 [V,S,N],[("pure in-memory nodes",N),("host fallback disabled by default",S)],["interpreter audit events during every call; host decoy files"])

prop("C27","Sandboxes, copies and snapshots share no mutable state",
 "Operations on one sandbox never affect another sandbox, and after a copy neither the original nor the copy is affected by any later change to the other's content, metadata, policy or children. The same holds between a snapshot (or a restored tree) and the live tree, between shells' variables, and between an adapter's returned entries and its store.",
 ["histories"],"all interleavings of operations on two sandboxes, on both sides of copies, and before/after snapshots, including in-place mutation of metadata and policies",
 "Tests use one sandbox and never change a copy.",
 [V,N,A,S],[("cloning of metadata and policy",V),("per-instance defaults",N),("entry copies",A)],["both sides after each change"])

prop("C28","All ways of enumerating the tree agree",
 "At any moment, recursive listing, walking, file iteration, the rendered tree, find, globbing and a snapshot enumerate the same set of paths with the same kinds and contents, each exactly once, with directories listed before files and names in order where a listing is sorted. A path is enumerated if and only if it resolves.",
 ["histories"],"all trees reached by any history, including provided, mounted and restored directories, of any size and depth",
 "Tests compare a few names in one listing.",
 [V,S],[("ls, walk, iter_files, tree, glob, snapshot",V),("find",S)],["cross-comparison of all enumerations"])

prop("C29","A storage adapter is an exact versioned store",
 "For every history of calls made directly on an in-memory or directory-backed adapter, a write naming the file's current version (zero for a new file) is stored and returns the content with the next version, a write naming any other version of an existing file is refused and changes nothing, reading gives exactly the last content and version or reports a missing file, listing gives exactly the files held, and deleting removes exactly the named file or nothing. What a caller does to returned entries, listings or the initial mapping never changes the store. The directory-backed adapter creates its root if needed, keeps exactly these files on disk in its encoding, and gives a file edited on disk a higher version.",
 ["histories","inputs","configurations"],"all histories of reads, writes (any version), deletes and listings, names, contents, encodings and edits behind the adapter's back",
 "Tests write one file once per adapter.",
 [A],[("MemoryStorageAdapter and FileSystemAdapter",A)],["returned entries, listings, bytes on disk"])

prop("C30","Registered commands are called as documented and their return is the result",
 "A command registered with a shell is called exactly once per use, with exactly the expanded arguments and, if it takes one, a context carrying the input, variables, current directory, sandbox and view at that point of the pipeline; what it returns (a result, text, another value or nothing) or raises becomes the command's output and exit code. What it does to the arguments, variables and context it was given affects neither the shell nor later commands, while what it does to the sandbox is seen by them. Registering under an existing name, built-in or not, replaces that command from then on in this shell only, and help and the command list show exactly the commands there are.",
 ["histories","inputs","configurations"],"all histories of registrations and command lines, all kinds of handlers (arguments only, with context, any callable) and returns",
 "Tests register one command and call it once.",
 [S],[("registration, dispatch and command context",S)],["recorded calls, results, shell variables, help"])

prop("C31","A failing hook never leaves tree, store and search at odds",
 "If a write or path hook raises during an operation (write, append, touch, copy, move, remove), whatever the error and whichever event it was, the failure is reported to the caller (by the shell as an error result), and the tree shows either the state before or the operation's whole result (after a recursive removal, survivors are unaltered). At every moment mounted stores hold exactly the mounted files with their versions, search results match the tree, and later operations behave as if the hook had not failed.",
 ["fault_sequences","histories"],"all histories of operations with a hook failing at any event of any of them, with mounts and index in any combination",
 "No test has a hook that raises.",
 [V],[("emission of events after state, store and index are updated",V)],["tree, store and search results after each fault"])

prop("C32","Modifying commands do exactly what their operands and flags say",
 "Every shell command that changes or produces data (write, append, touch, mkdir, rm, cp, mv, cd, and echo, printf or cat redirected or not) acts on exactly the operands given, flags counting in every accepted form and position, and stores or prints exactly the text given: words joined by one blank, --text taking the next word literally, --append adding instead of replacing, echo ending in a newline unless its first word is -n, printf reading each escape of its format once and inserting values literally. Several operands are handled in order; the command succeeds, silently, exactly if all of them could be handled, and otherwise ends with a message and a non-zero code at the first one that could not, having done the ones before it and nothing after.",
 ["inputs","histories"],"all command lines over these commands (any number of operands and words, flags anywhere, any quoting, relative and absolute paths), after any history, with protected nodes and missing operands",
 "Tests give each command one operand and one or no flag.",
 [S],[("write, append, touch, mkdir, rm, cp, mv, echo, printf and cat commands",S)],["whole tree, output and exit code after each line"])

prop("C33","Times and metadata tell a node's own history",
 "A file's modification time is the moment of the last write, append, redirection or touch that succeeded on it, and a node's creation time the moment it was made; moving or renaming keeps both, and reading, listing, searching, policy changes, refused operations and operations on other nodes leave both alone. Metadata set on a node stays with it through writes and moves, goes along with copies, and is changed by nothing else. Restoring a snapshot brings back the times and metadata of that moment.",
 ["histories"],"all histories of operations through API and shell, including refused ones, moves of whole subtrees, mounts, provided directories and restores",
 "No test looks at times after more than one operation.",
 [V,N,S],[("node times and metadata",N),("write_file, touch, move, copy, snapshot and restore",V),("stat",S)],["times and metadata of every node against the clock around each operation"])

prop("C34","The kind of a refusal tells its reason",
 "Whatever an operation on the tree or a lookup refuses, it refuses with one of the sandbox's own errors, carrying a message, whose class tells why: NodeNotFound exactly when an operand (or the directory it should go into) does not exist, NodeExists when the name is already taken, ProviderError when a provider failed, whatever it raised, and InvalidOperation for everything else (protected or unreadable nodes, stale versions, the wrong kind of node, a path leading through a file, the root, a directory into itself). Where several reasons apply, any one of them is given. The shell reports the same refusals as a failure with a message.",
 ["histories","inputs"],"all operations and lookups on all trees and paths, policies, versions and provider failures",
 "Tests look at the class of a handful of errors.",
 [V,N],[("resolution and errors of every operation",V),("wrapping of provider failures",N)],["class and text of every error"])

prop("C35","Optional features do not change what operations do",
 "Every history of operations and command lines has the same verdicts, errors, outputs, versions and resulting tree whatever optional features are in use beside it: full-text index, search view, hooks that only observe, snapshots, searches and listings in between, other shells on the same sandbox, unrelated mounts and provided directories, additional commands and variables, and an output limit, allow list or view that excludes nothing.",
 ["histories","configurations"],"all histories crossed with all sets of features, switched on before or during the history",
 "Tests switch on one feature and look at that feature.",
 [V,S],[("index, hook, mount and search-view branches of every operation",V),("view, allow-list and limit branches of the shell",S)],["verdict, output and tree of a plain twin at every step"])

out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
import re
for p in P:
    n=len(re.findall(r"[.!?](\s|$)",p["statement"]))
    if n>3: print("too many sentences?",p["id"],n)
print(len(P))
