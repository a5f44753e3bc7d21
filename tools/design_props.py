# property -> how it is decided (prose); the rules are listed by gen_design.py
PROSE = {
"P01": "Runs of sync, reset, init and empty-trash. The event that binds an abstract unix socket must be certain (`done`) at every event that reads or changes the profile's state; its name is compared as a term (contains user and profile, does not depend on the command); no close/unbind/garbage-collected reference before the last event; the OSError of a second bind must flow to a reported error. Tests cannot run every pair of operations at every moment; here the happens-before fact holds on all paths.",
"P02": "For every durable record (commit of either database, info file, status) the set of operations that can still follow on any path must not contain a change that the record describes, and everything it describes must be certainly done. Since a crash truncates a path at any event, 'records last' on every path is the crash property. Known finding `last-sync-late`: the recorded time is taken after the transfers.",
"P03": "The set term handed to the upload is compared with the specification set {x in local scan: new or modified, not excluded, not unsafe, not older than the remote one} by implication of membership conditions for one arbitrary path x. A second rule finds every removal/replacement of a local path and demands that it is after the upload or that x is unmodified.",
"P04": "Every event that removes or replaces a local path x must imply the justification (synced, missing remotely, not excluded, unmodified) or securing by an earlier upload; and the converse for deletions that must propagate. Known finding: `shutil.rmtree` of a deleted directory takes new files along.",
"P05": "Mirror image of P04 for the remote side, plus the condition under which the trash must be used. Known finding: rmtree of a deleted directory.",
"P06": "Renames of the sync: the renamed one is the older (comparison atom of the two mtimes under the path condition), both names end up in upload and download sets and records; the new name is one that does not exist; every copy over an existing file implies not-newer at the target.",
"P07": "The name given to a trashed file is proved fresh: loop exit condition implies that no entry (lexists) of the trash and no earlier name of the same run equals it; the move is the only writer; the time starts at the move (ctime/mtime set after).",
"P08": "The condition of each deletion is compared with `age >= period*86400` in linear normal form, with the period present; targets are proved to be entries of the trash, and links are removed as links (kind facts at the event).",
"P09": "Membership of an arbitrary path in the upload set, download set, eviction set and records, given `excluded(x)` and `not synced(x)`, must be contradictory. The matching primitive itself (patterns, glob escapes, below-directory, ignored blank lines and comments) is compared with its contract.",
"P10": "All file-system calls carry a follow/no-follow effect in `ext.py`; a rule demands no-follow for every call whose argument may be a link, and that recursion never descends into a link. 'Unsafe' is compared with its definition (absolute, or relative path that leaves the directory).",
"P11": "'Mounted' is the fact that the marker directory `.zielen` was seen; every deletion because of remote absence must be after a check of it that is later than the scan; creation in the remote directory must go through the marker path (so that it fails on an empty mount point) and nobody creates the marker but init.",
"P12": "The body of `transfer_tree` (with its generators and helpers) is interpreted for an arbitrary set of paths: the copied set equals the requested set (both inclusions); the destination only changes by rename of a completed temporary file in the same directory; source removal is after the rename; errors leave the loop; copystat precedes the rename.",
"P13": "Runs of reset: retrieved set is the whole remote scan; removal of remote content requires the option off, retrieval certainly done, and a later scan that found nothing missing; removed local paths are links whose target is below the remote directory (normalised); the profile goes last.",
"P14": "Runs of init with every check as an event: before the checks are certainly done nothing below local/remote is changed; on exceptional ends before that the profile is certainly removed; after that it is certainly kept with status partial; overlap is compared both ways for all profiles; the final sets and records equal the specification.",
"P15": "Validation and interpretation of every option are turned into automata over the value's text; 'accepted and not interpretable' must be the empty language, documented forms must be included in 'accepted', and the value computed must be the documented linear function (unit tables, powers, minutes).",
"P16": "Reader, writer, checker and prompt of the configuration are interpreted for an arbitrary line/option; the results are compared with the documented line grammar (automata), default table, required set.",
"P17": "At the end of a completing sync, the set terms added to / removed from either database must be equal, must contain every appeared path under its final name, and the directory flag must equal the kind fact.",
"P18": "Python and SQL of the database classes together: each method's statements are translated to row formulas for an arbitrary argument set and compared with the specification formula of the hierarchy (closure, totals, flags, ids, collisions). Triggers of the schema are applied as part of the statements.",
"P19": "Daemon loop: the pending accesses are an element-wise state; every path of a round either commits them or keeps them; cooldown and decay are compared as linear inequalities/powers; what is written to the info file was read after the last waiting operation.",
"P20": "Exceptional edges out of every command are collected with their classes; each foreseeable one must reach the handler of `main` that prints to stderr and exits with 1 (or the traceback when debugging); messages are non-empty; scripts pass the status on.",
"P21": "`main`, the option parser and the constructors are interpreted for every documented command word and option; the argument term that reaches each constructor must be the one that the option denotes. Signal handlers likewise.",
"P22": "Definite-assignment, attribute, arity, None-iteration and None-subscript faults and dictionary lookups whose key is shown to be absent, or shown to be possibly absent in a command run, are collected by the interpreter over all entry points; a fault is reported if it is feasible and not caught as a foreseeable error.",
"P23": "For an arbitrary path of the final remote database: it is in the linked set or in the downloaded set (with selected <=> downloaded), evicted if held and not selected, and flagged accordingly; the link primitive's body is checked separately.",
"P24": "Every write that can reach the info file must be a rename of a closed temporary file in the same directory whose name contains something unique to the process/call; no other event writes, truncates or unlinks it.",
"P25": "The format/zone of writer and reader of each time are compared as terms (fixed format with microseconds, UTC or epoch both ways); lossy spellings (isoformat without fraction, naive local times) are known to `ext.py`.",
"P26": "Greedy selection from the loop's backedge: remaining space decreases by exactly what was selected (linear form), selected only if it fits, iteration order is by priority (or per size) descending with a deterministic tie-break, directories only if all their content fits, nothing is counted twice; the limit handed over is limit minus excluded size minus links; sync composes both selections.",
"P27": "Condition of the removal of excluded remote files: for all pattern files of the directory the path matches (a universally quantified part), and the local copy was secured before.",
"P28": "Sync and init copy the exclude file under the profile's id before the first event whose condition or argument depends on excludes; only the own file is ever written or removed; reset certainly removes it.",
"P29": "Daemon thread: start condition compared with interval and last attempt as linear inequality; state after a round shows that the last attempt is updated whatever the outcome; what the process writes into a pipe is read while it runs, unless nothing is written to it when it is not a terminal; the end of the process is awaited before the next start.",
"P30": "The table handed to the printer is compared with a universally quantified collection: its rows are exactly one per profile of the profiles directory, each cell is the value of the option of that profile's own configuration under its heading; the row set has no filter; the `no profiles` exit is reached only if the collection is empty.",
}
