"""Per property: the oracle, and why the search reaches what tests cannot."""
NOTES = {
 "C01": "model.py is a plain dict-of-paths filesystem written from the README, not from the code; it predicts success or refusal, listing, kind and content of every path. Histories reach combinations of move/copy targets (into itself, onto a file, onto a directory, over a missing parent) in states a fixed test never builds.",
 "C02": "Metamorphic: the spelled twin must equal the canonical twin call by call; the collapse is computed by an independent ten-line reference.",
 "C03": "The state before the call is the oracle. Store and provider faults are injected at the n-th call, so partially done multi-file operations are reached.",
 "C04": "Version-counting model; writers hold versions from any earlier moment, so lost updates show up as an accepted stale write.",
 "C05": "The model refuses exactly what a policy forbids; whatever is accepted or refused beyond that, or any change of a protected node, is a violation.",
 "C06": "Contents carry unguessable tokens; any output of any command is scanned for tokens that only unreadable files hold.",
 "C07": "Independent evaluation of the view over the labelled model gives the exact visible set; tokens detect leaks in any output, and commands with an exact meaning are compared exactly.",
 "C08": "Hidden nodes: frame condition over the full captured state. Visible-only commands: the unrestricted model.",
 "C09": "Adapter listing, bytes on disk and tree are compared after every step with one model; a fresh sandbox on the same store is compared at the end.",
 "C10": "The harness keeps per sandbox the store version last seen and predicts refusal or success of each write.",
 "C11": "The outside of the root is captured byte by byte before and after, tokens in outside files detect reads. Runs as an unprivileged user in a scratch directory.",
 "C12": "Round trip against the harness's own capture; after each restore the history goes on against the model, so damage that shows only later is found.",
 "C13": "The event log of a step is compared with the state difference of that step; a replica rebuilt from events alone must equal the files.",
 "C14": "Reference line matcher over the captured tree; same queries with and without index.",
 "C15": "Reference search restricted by an independent view evaluation.",
 "C16": "Totality: no exception, types of the result, failing lines leave non-zero code, message and no marker of later commands; usability probes afterwards.",
 "C17": "Recorder commands, effects in the tree and process-start audit events show what ran; an unrestricted twin gives the effect of the allowed prefix.",
 "C18": "The unlimited twin gives the exact bytes; limits are chosen around the byte and character counts.",
 "C19": "Reference evaluator over the structured case (not over the text), so parsing mistakes of the code are not shared by the oracle.",
 "C20": "Each command has a reference implementation over the model.",
 "C21": "Model populated exactly when and with what the provider answered; call counters detect early or repeated calls.",
 "C22": "The host script is also applied to a reference tree; every node not named by it must be unchanged in content, version and policy.",
 "C23": "Byte-exact comparison with the model plus a watch on every file operation of the process.",
 "C24": "Generated snippets have an expected output computed separately; audit hook sees any host effect.",
 "C25": "Differential: the CLI against a shell built by the harness over an identical copy of the host directories.",
 "C26": "Audit events and wrapped os functions record any host access; decoy files at equal paths detect reads and writes.",
 "C27": "One reference state per holder; after each step all holders but the one acted on must be unchanged.",
 "C28": "Mutual agreement of the enumerations and with the model, plus probes of paths that are not enumerated.",
 "C29": "A dictionary of contents and versions predicts every answer; the files on disk are read independently.",
 "C30": "Handlers of nine kinds record how they were called; the structured case is evaluated by a reference, so the parser is not trusted.",
 "C31": "The event at which a hook fails is part of the case; the oracle is the disjunction before/after of the model plus agreement of tree, store and search.",
 "C32": "The structured case (operands, flags, words) is applied to the reference filesystem operand by operand; the text of the line, with random quoting, is only given to the code.",
 "C33": "The clock is read before and after each operation; a node made or changed by it must carry a time in between, any other node the times it had.",
 "C34": "The reference filesystem lists every reason that applies to a refused call; the class of the error must be one of them, and there must be an error exactly if there is a reason.",
 "C35": "Twin run: a plain sandbox and one with a random set of features get the same history; no model is needed, so every command and call can take part.",
}
