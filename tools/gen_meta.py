"""Writes properties.jsonl and MANIFEST.json from this one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

Z = "zielen/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=(),
      tech=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(
        row={"id": id, "title": title, "statement": statement,
             "quantifier": {"over": over.split(), "text": text},
             "why_tests_cant": why,
             "anchors": {
                 "files": [Z + f for f in files.split()],
                 "mechanism": [{"name": n, "where": Z + w} for n, w in mech],
                 "state": [{"name": n, "meaning": m, "where": Z + w}
                           for n, m, w in state],
                 "observe_at": list(obs), "hook_needed": None}},
        tech=tech, note=note))


AI = ("abstract interpretation of the syntax trees (path conditions as BDDs "
      "over file-system and database facts); ")
TRUST = (" Trusts the models of library calls (zcheck/ext.py) and the "
         "contracts of the package's own database and exclude-file "
         "primitives (zcheck/prims.py); the latter are checked by body rules.")

p("P01", "One operation at a time on a profile",
  "Sync, reset, init and empty-trash never act on the same profile of the same "
  "user at the same time: each takes an exclusive lock named after the user and "
  "the profile before it reads or changes any of that profile's state, and holds "
  "it until it has finished. An operation that finds the lock taken reports an "
  "error and changes nothing. The lock cannot outlive the process that holds it, "
  "however that process ends.",
  "schedules crash_points",
  "any two operations on one profile, started at any moments; killed anywhere",
  "tests run one operation at a time in one process; the property is about what "
  "two processes can interleave",
  "commandbase.py commands/sync.py commands/reset.py commands/init.py commands/emptytrash.py",
  [("abstract unix socket bound before the profile is read", "commandbase.py Command.lock"),
   ("unlock decorator closes it when main returns", "commandbase.py unlock")],
  [("lock_socket", "held lock", "commandbase.py Command")],
  ["the bind call relative to every effect of each command"],
  AI + "event order of the lock against every read and effect",
  "Every read of profile state and every effect in the four commands is shown "
  "to come after the bind on all paths and before any release." + TRUST)

p("P02", "Interrupted operations can be repeated",
  "What a sync records about the two directories becomes durable only at its "
  "very end, after every change it describes has been made, so that a sync "
  "interrupted at any point leaves records from which the next sync finishes "
  "the work. The time recorded for it is not later than the moment at which the "
  "directories were examined. An initialization is recorded as unfinished before "
  "any user file is touched and as finished only once everything is in place.",
  "crash_points histories",
  "an interruption between any two effects of a sync or an initialization",
  "tests never interrupt an operation, and the commands themselves have no tests",
  "commands/sync.py commands/init.py profile.py userdata.py containerbase.py filelogic.py",
  [("single commit of both databases at the end of the run", "commands/sync.py SyncCommand.main"),
   ("status partial / initialized", "commands/init.py InitCommand.main")],
  [("LastSync, Status", "time of the last completed sync, state of the profile", "profile.py ProfileInfoFile")],
  ["order of commits and info-file writes relative to all effects"],
  AI + "order of commit events against all effects",
  "No commit precedes an effect; info file written only after everything." + TRUST)

p("P03", "New and changed local files reach the remote directory",
  "When a sync finishes, every file or directory that is new in the local "
  "directory or was modified there since the last sync is in the remote "
  "directory with its current content, unless it is excluded, is an unsafe link, "
  "or the remote directory holds a more recently modified version. Until that "
  "has happened its local copy is not deleted, overwritten or replaced.",
  "inputs histories",
  "any two trees, any databases, any exclude patterns, any modification times",
  "tests cover a handful of tiny trees per method; the guarantee spans scan, "
  "diff, conflict handling and transfer for arbitrary trees",
  "commands/sync.py filelogic.py fstools.py userdata.py",
  [("difference computation", "filelogic.py compute_added, compute_modified"),
   ("transfer", "filelogic.py update_remote; fstools.py transfer_tree")],
  [("profile database", "paths known since the last sync", "profile.py ProfileDBFile")],
  ["set of paths passed to the transfer, for a symbolic path"],
  AI + "set of transferred paths compared with the specified set by BDD implication",
  "For an arbitrary path the specified condition implies membership in the "
  "transferred set." + TRUST)

p("P04", "Local files are deleted only when that is justified",
  "A sync deletes a local file without keeping its content elsewhere only if the "
  "file was synced before, has since been deleted from the remote directory, is "
  "not excluded and has not been modified locally since the last sync. Such "
  "files are in fact deleted. Apart from that, a local file disappears only by "
  "being replaced by a newer version or by a link to a remote file that holds "
  "its content.",
  "inputs histories fault_sequences",
  "any two trees and databases, including a remote directory that vanishes",
  "needs every combination of presence, modification and exclusion on both sides",
  "commands/sync.py filelogic.py userdata.py",
  [("deletion sets", "filelogic.py compute_deleted"),
   ("removal", "filelogic.py rm_local_files, update_local")],
  (), ["condition of every deleting call in the local directory"],
  AI + "condition of each deleting effect checked against the specification",
  "Every deleting effect in the local directory has an unsatisfiable "
  "conjunction with the negated justification." + TRUST)

p("P05", "Remote files are removed only when that is justified",
  "A sync removes a file from its place in the remote directory only if the file "
  "was synced before and has since been deleted locally without having been "
  "modified remotely, or if it is excluded. Files deleted locally are in fact "
  "removed remotely; if the trash is in use and no local copy was kept, they are "
  "moved to the trash instead of being deleted.",
  "inputs histories configurations",
  "any two trees and databases, trash on or off",
  "needs every combination of presence, modification, exclusion and trash setting",
  "commands/sync.py filelogic.py userdata.py profile.py",
  [("deletion sets", "filelogic.py compute_deleted"),
   ("removal", "filelogic.py rm_remote_files, trash_files")],
  (), ["condition of every deleting or renaming call in the remote directory"],
  AI + "condition of each removing effect checked against the specification",
  "Every removing effect in the remote directory has an unsatisfiable "
  "conjunction with the negated justification." + TRUST)

p("P06", "Conflicting versions of a file are both kept",
  "If a file was changed on both sides since the last sync, at different times, "
  "the older version is kept under a new name that no file has yet and the newer "
  "version keeps the name; both end up on both sides. A file's content is never "
  "overwritten by a version that was modified earlier. A modified file that was "
  "uploaded is recorded as changed at the time of the upload, so that clients that "
  "synced between its modification and its upload notice the change.",
  "inputs histories",
  "any pair of modification times and any two trees",
  "tests use a few fixed files; every overlap of the change sets matters",
  "filelogic.py commands/sync.py utils.py",
  [("renaming", "filelogic.py handle_conflicts")],
  (), ["condition of every rename and of every overwriting transfer"],
  AI + "rename and overwrite conditions checked against modification-time facts",
  "Paths changed on both sides are renamed on the older side and only there." + TRUST)

p("P07", "Moving to the trash never loses a file",
  "A file that is moved to the trash is given a name that nothing in the trash "
  "has, whatever is already there and whatever else is moved at the same time, "
  "so nothing in the trash is ever overwritten. The file's time in the trash "
  "counts from the moment it was moved there.",
  "inputs",
  "any trash content and any set of trashed paths, including equal base names",
  "tests move one or two files; the name search must hold for any collision set",
  "filelogic.py fstools.py",
  [("unique names", "filelogic.py trash_files")],
  [("trash directory", "files deleted locally", "userdata.py RemoteSyncDir.trash_dir")],
  ["destination of each rename into the trash"],
  AI + "freshness of the rename destination from the loop-exit condition",
  "The destination name is shown to be outside the set of existing names and "
  "distinct from those given before." + TRUST)

p("P08", "Trash clean-up deletes only expired trash",
  "Cleaning up deletes an entry of the trash exactly when a period is set and "
  "the entry has been in the trash for at least that long; emptying the trash "
  "deletes all of its entries. Neither ever deletes anything outside the trash, "
  "not even through a symbolic link in it.",
  "inputs configurations",
  "any trash content, ages, link targets and period, including zero and negative",
  "depends on time and on arbitrary trash content, links included",
  "filelogic.py commands/emptytrash.py commands/sync.py profile.py",
  [("clean-up", "filelogic.py cleanup_trash"), ("emptying", "commands/emptytrash.py EmptyTrashCommand.main")],
  (), ["target and condition of each deleting call"],
  AI + "target region and condition of each deleting effect",
  "Every deletion is confined to entries of the trash and guarded by age." + TRUST)

p("P09", "Excluded files are left alone",
  "A file that matches the exclude patterns, or lies in a directory that does, "
  "is never copied to the remote directory, and its local copy is never deleted, "
  "moved, overwritten or replaced by a link by a sync unless it was synced "
  "before. Excluded files that are not in the remote directory are not recorded "
  "as synced.",
  "inputs configurations histories",
  "any patterns and trees; patterns changed between syncs",
  "patterns are arbitrary globs over arbitrary trees",
  "filelogic.py commands/sync.py profile.py fstools.py",
  [("pattern matching", "profile.py ProfileExcludeFile"), ("filters", "filelogic.py compute_added, rm_local_files, update_local")],
  (), ["conditions of uploads and of effects on local files"],
  AI + "exclusion fact refuted in the condition of each upload and local effect",
  "No upload and no destructive local effect is compatible with the path being "
  "excluded (and never synced)." + TRUST)

p("P10", "Symbolic links are never followed",
  "Scanning, copying and deleting treat a symbolic link as the link itself: no "
  "operation reads, copies, changes or deletes what a link points to. Links that "
  "are absolute or that point out of the local directory are never copied to the "
  "remote directory or recorded as synced; all other links are copied as links.",
  "inputs",
  "any tree with links to files, directories, outside, dangling or cyclic",
  "tests contain few links; each stat, copy and delete call is a separate hazard",
  "fstools.py userdata.py filelogic.py",
  [("scan", "fstools.py scan_tree"), ("copy", "fstools.py transfer_tree"), ("filter", "fstools.py is_unsafe_symlink")],
  (), ["follow_symlinks behaviour of each call"],
  AI + "link-following effects of each call and refinement of the unsafe-link test",
  "Each file-system call on user trees is shown not to follow links; the unsafe "
  "link predicate is compared with its specification." + TRUST)

p("P11", "A missing remote directory is never mistaken for an empty one",
  "If the remote directory is not mounted, no operation deletes local files "
  "because of that, writes anything below the empty mount point or records "
  "anything as synced; it reports an error instead.",
  "fault_sequences schedules",
  "the remote directory disappearing at any moment of an operation",
  "tests cannot make the directory vanish between two given calls",
  "filelogic.py userdata.py commands/reset.py commands/emptytrash.py commands/sync.py fstools.py",
  [("paths through the marker directory", "userdata.py RemoteSyncDir.safe_path"),
   ("check after scanning", "filelogic.py compute_deleted")],
  (), ["path and guard of each remote effect and of each local deletion"],
  AI + "every remote effect resolved through the marker directory or guarded",
  "Each effect on the remote tree fails if the marker directory is gone; local "
  "deletions follow a check made after the scan." + TRUST)

p("P12", "Transfers are complete, faithful and safe to interrupt",
  "Transferring a set of paths copies every file, link and directory named or "
  "contained in a named directory, except those left out on request, creating "
  "the parent directories and keeping permissions and times. An existing file at "
  "the destination is replaced in one step by the complete new one, never "
  "truncated or missing in between, and when moving, a source is removed only "
  "after its copy is in place.",
  "inputs crash_points fault_sequences",
  "any trees, any selection, an error or interruption at any point",
  "tests copy a few files and never fail midway",
  "fstools.py",
  [("copy to temporary name, then rename", "fstools.py transfer_tree")],
  (), ["order of copy, rename and remove for a symbolic path"],
  AI + "per-path order and coverage of copy, replace and remove effects",
  "For an arbitrary selected path: coverage, order and atomic replacement." + TRUST)

p("P13", "Reset brings everything back before removing anything",
  "Reset copies every remote file into the local directory before it deletes "
  "anything remote, deletes the remote content only if the user did not ask to "
  "keep it and only after finding that no file was left behind, and removes from "
  "the local directory only links into the remote directory. The profile is "
  "removed last, and a failure before that leaves profile and unretrieved files "
  "in place.",
  "inputs configurations fault_sequences crash_points",
  "any trees, both options, a failure at any call",
  "the command has no tests; losing the last copy needs only one misplaced call",
  "commands/reset.py userdata.py fstools.py",
  [("order of retrieval, check and removal", "commands/reset.py ResetCommand.main")],
  (), ["order and condition of every deleting call"],
  AI + "order and condition of each deleting effect of the command",
  "Every remote deletion follows transfer and re-scan on all paths." + TRUST)

p("P14", "Initialization validates first and can be resumed or undone",
  "Init changes no user file before the profile name, the option files, both "
  "directories and their overlap with other profiles and the program's own files "
  "have been checked; a failure until then leaves no profile behind. Afterwards "
  "every local file has been put into the remote directory, or every remote file "
  "is linked locally, without overwriting a local file of the user, and a second "
  "init of a finished profile is refused.",
  "inputs configurations crash_points histories",
  "any names, directories and existing profiles; interruption at any point",
  "the command has no tests and its cleanup depends on where it stops",
  "commands/init.py fstools.py filelogic.py profile.py commandbase.py",
  [("checks", "commands/init.py InitCommand.main, _verify_local_dir; fstools.py check_dir"),
   ("cleanup handlers", "commands/init.py")],
  [("status", "partial or initialized", "profile.py Profile.status")],
  ["order of checks, registrations and effects"],
  AI + "order of validation, cleanup registration and effects",
  "Each effect on user data is dominated by each check." + TRUST)

p("P15", "Every accepted configuration can be interpreted",
  "Every option value that validation accepts is turned into a value without an "
  "error and with the documented meaning: sizes with units in any letter case "
  "and powers of 1000 or 1024, periods as multiples of minutes, hours or days, "
  "booleans in any letter case, paths with the home directory expanded. A value "
  "that cannot be interpreted is rejected with a message.",
  "inputs configurations",
  "all strings for each option",
  "the accepted language is infinite; tests try a few members",
  "profile.py containerbase.py",
  [("validation", "profile.py ProfileConfigFile.check_value"), ("interpretation", "profile.py Profile properties")],
  (), ["language accepted by validation versus language interpreted"],
  "regular-language inclusion between the validation patterns and the "
  "interpreting code, both read from the source by abstract interpretation",
  "Inclusion is decided on automata built from the source's patterns; the "
  "interpreting functions are evaluated abstractly per alternative." + TRUST)

p("P16", "Configured values and defaults are honoured",
  "An option the user sets takes effect as set; an optional one that is missing "
  "or commented out, or left blank where blank is accepted, takes its documented "
  "default; a required one that is missing or blank, and an unknown one, is "
  "reported. Values from a template file or the "
  "prompt are stored unchanged, and what is stored reads back the same.",
  "inputs configurations",
  "all combinations of set, blank, missing and unknown options",
  "combinations of nine options in several states and sources",
  "profile.py containerbase.py",
  [("lookup with defaults", "profile.py ProfileConfigFile.vals"), ("parse and write", "containerbase.py ConfigFile")],
  (), ["value of each option per state"],
  AI + "values of options per state of the file",
  "Lookup, parsing and writing are followed for a symbolic option." + TRUST)

p("P17", "The records of both sides agree with the directories",
  "When a sync finishes, a path is recorded as synced in the profile's and in the "
  "remote directory's records alike, it is recorded under its final name and as "
  "the kind of file it is, and whatever was deleted or renamed is recorded in "
  "neither under its old name.",
  "inputs histories",
  "any two trees and databases",
  "agreement of two databases with two trees over arbitrary histories",
  "commands/sync.py filelogic.py profile.py userdata.py",
  [("paired updates", "commands/sync.py; filelogic.py _rm_files, _rename_files, trash_files")],
  [("two databases", "known paths per profile and per remote directory", "profile.py, userdata.py")],
  ["final membership of a symbolic path in both databases"],
  AI + "final database membership of a symbolic path compared on both sides",
  "Membership conditions are equivalent and match the specification." + TRUST)

p("P18", "The path database keeps a consistent hierarchy",
  "Adding a path records its place under every ancestor; removing one removes "
  "everything below it and nothing else; a directory's priority is the total of "
  "its files and it counts as local only if all of its contents are; queries "
  "return exactly the rows asked for. No two paths ever share a row, even if "
  "the hash of the new path equals that of a recorded one.",
  "inputs histories",
  "any sequence of additions, updates and removals, any paths",
  "tests use a fixed tree; hash collisions and orderings are not sampled",
  "containerbase.py profile.py userdata.py",
  [("closure table", "profile.py ProfileDBFile, userdata.py RemoteDBFile"), ("path ids", "containerbase.py SyncDBFile._get_path_id")],
  [("nodes, closure, collisions", "tables", "profile.py, userdata.py")],
  ["statements executed and their parameters"],
  "SQL statements extracted by abstract interpretation of the methods, parsed "
  "and compared with the specified relational effect",
  "Each statement is parsed into a normal form (table, assignments, predicate, "
  "parameters) and compared with the specification." + TRUST)

p("P19", "Priorities rise with use and halve with time",
  "Each use of a synced file raises its priority once per cooldown period and "
  "no use is dropped because the database was busy; at regular intervals all "
  "priorities are multiplied so that they halve once per configured half-life. "
  "Adjusting priorities never loses or reverts what a sync has recorded.",
  "schedules histories configurations",
  "any sequence of accesses, any timing of syncs and busy databases",
  "depends on time, on an endless loop and on concurrent syncs",
  "daemon.py profile.py",
  [("event loop", "daemon.py Daemon.main"), ("decay", "daemon.py Daemon._adjust")],
  (), ["arguments and order of increments and adjustments"],
  AI + "values and order of the priority updates in the daemon loop",
  "The factor is compared symbolically with the half-life formula." + TRUST)

p("P29", "The daemon syncs at the configured interval",
  "While the daemon runs, it starts a sync of its own profile, in a separate "
  "process that outlives it, whenever the configured interval has passed since "
  "the last sync or attempt: never earlier, never two at once, also after a sync "
  "that failed, and without ever being blocked by what the sync prints.",
  "schedules histories configurations",
  "any timing of syncs, failures and changes of the configuration",
  "depends on time, on an endless loop and on other processes",
  "daemon.py profile.py containerbase.py",
  [("sync thread", "daemon.py Daemon._sync"), ("interval", "profile.py Profile.sync_interval")],
  (), ["guards of the start of a sync and what each attempt records"],
  AI + "guard, command and bookkeeping of the syncs that the daemon starts",
  "The interval is compared symbolically with the configured one." + TRUST)

p("P30", "The list of profiles is complete and faithful",
  "The list command shows every profile of the user, one row each, with its name "
  "and the local directory, remote directory and storage limit that its own "
  "configuration file gives, under the heading of each; a value is blank only if "
  "the configuration has none. Only if there is no profile does it say so.",
  "inputs configurations",
  "any set of profiles and any contents of their configuration files",
  "tests list a few profiles that they have made; each profile and option counts",
  "commands/list.py commandbase.py containerbase.py profile.py utils.py",
  [("list", "commands/list.py ListCommand.main"),
   ("profiles", "commandbase.py Command.__init__")],
  (), ["rows that are handed to the table, per profile"],
  AI + "flow of each profile's name and options to the column of its meaning",
  "The drawing of the table itself is not analysed, only what is put into it."
  + TRUST)

p("P20", "Foreseeable failures are reported and exit with an error status",
  "A bad argument, an unusable configuration, a missing remote directory, missing "
  "permissions, too little space, a busy profile or a termination signal ends the "
  "command with a message on the standard error stream and exit status 1, never "
  "with a traceback, unless debugging was asked for; success exits with 0.",
  "fault_sequences inputs",
  "every foreseeable failure at every call of every command",
  "failures at arbitrary calls are not exercised by any test",
  "cli.py exceptions.py commandbase.py filelogic.py userdata.py commands/reset.py commands/emptytrash.py",
  [("handler", "cli.py main"), ("translation of errors", "filelogic.py, userdata.py")],
  (), ["exceptions that can leave each command"],
  "exception-flow analysis over the abstract interpretation",
  "Every raised program exception derives from the handled base class and the "
  "listed failures are translated into one." + TRUST)

p("P21", "Command-line options reach the operation they name",
  "Each command and option given on the command line selects the operation it "
  "names with exactly the given arguments, and the signals for termination, "
  "hang-up and interruption end an operation in an orderly way. A profile is "
  "found by its name or by the path of its local directory.",
  "inputs",
  "all combinations of commands and options",
  "no test runs the command line",
  "cli.py commandbase.py commands/init.py commands/reset.py commands/sync.py commands/emptytrash.py commands/list.py",
  [("parser and dispatch", "cli.py parse_args, def_command")],
  (), ["value flow from each option to its use"],
  AI + "value flow from parser destinations to command fields",
  "Each parsed option flows into the field whose guard it is." + TRUST)

p("P22", "No path runs into a programming error",
  "No operation can end in an unbound variable, an attribute or parameter that "
  "does not exist, an iteration over a missing value, the removal of an element "
  "that may be missing, or an iterator that was used up, whichever path it takes.",
  "inputs histories fault_sequences",
  "all paths of all functions reachable from the commands and the daemon",
  "rare branches (errors, conflicts, resumption) are not executed by tests",
  "cli.py commandbase.py filelogic.py profile.py userdata.py daemon.py fstools.py containerbase.py utils.py",
  [("whole package", "")], (), ["uses of names, attributes and calls on each path"],
  "definite-assignment, attribute and arity analysis over the abstract interpretation",
  "Problems are reported only under satisfiable path conditions." + TRUST)

p("P23", "Afterwards every remote file is present or linked locally",
  "When a sync finishes, every file in the remote directory is either held in the "
  "local directory as a regular copy or linked there, selected files and "
  "directories being held and all others being links, and the records say which; "
  "files that were never synced, are excluded or are unsafe links are left as "
  "they are.",
  "inputs histories configurations",
  "any selection and any trees",
  "needs arbitrary selections over arbitrary trees",
  "filelogic.py fstools.py commands/sync.py",
  [("materialisation", "filelogic.py update_local, compute_stale; fstools.py symlink_tree")],
  (), ["paths evicted, copied and linked for a symbolic path"],
  AI + "evicted, copied and linked sets for a symbolic path",
  "Set conditions compared with the specification by BDD implication." + TRUST)

p("P24", "Profile metadata is replaced atomically",
  "The file holding a profile's status, identity and times is always either the "
  "complete old or the complete new version, whatever moment a write is "
  "interrupted at or a reader looks at it.",
  "crash_points schedules",
  "interruption or concurrent read at any instant of a write",
  "tests never interrupt a write",
  "containerbase.py profile.py daemon.py",
  [("temporary file and rename", "containerbase.py JSONFile.write")],
  [("info.json", "status, id, times", "profile.py ProfileInfoFile")],
  ["open and replace calls of every writer of the file"],
  AI + "no open-for-writing of the file itself; rename after close",
  "All writers found by path resolution of open() calls." + TRUST)

p("P25", "Recorded times mean the same instant when read back",
  "A time written to a profile's metadata reads back as the same instant to the "
  "microsecond, independent of time zone and daylight saving, also if it has no "
  "fractional part.",
  "inputs configurations",
  "all instants and time zones",
  "tests run in one time zone",
  "profile.py",
  [("conversion", "profile.py Profile._convert_epoch, _convert_timestamp")],
  (), ["format strings and zone of both conversions"],
  AI + "format strings and time-zone provenance of writer and reader compared",
  "Writer and reader use the same zone and a lossless common format." + TRUST)

p("P26", "The storage limit is respected and selection is repeatable",
  "The files and directories chosen to be held locally, together with the links "
  "to all others and the excluded files, fit into the configured limit as "
  "measured when they are chosen, highest priority first (per size if so "
  "configured), and equal circumstances give the same choice.",
  "inputs configurations",
  "any priorities, sizes and limit",
  "arithmetic over arbitrary sets of sizes and priorities",
  "filelogic.py commands/sync.py",
  [("selection", "filelogic.py prioritize_dirs, prioritize_files")],
  (), ["guard of each selection and bookkeeping of the remaining space"],
  AI + "guards and space bookkeeping of each selection",
  "Every selection is guarded by the remaining space after it, which is what is "
  "carried on." + TRUST)

p("P27", "Excluded files leave the remote directory only if all exclude them",
  "A sync removes an excluded file from the remote directory only if every "
  "profile that shares the directory excludes it, and only after the local copy "
  "has been secured.",
  "inputs histories configurations",
  "any number of profiles and patterns",
  "needs several clients with differing patterns",
  "userdata.py filelogic.py commands/sync.py",
  [("agreement of all clients", "userdata.py RemoteSyncDir.check_excluded")],
  [("copies of exclude files", "one per profile", "userdata.py RemoteSyncDir._exclude_dir")],
  ["condition of the removal"],
  AI + "removal condition refuted together with a client that does not match",
  "The condition implies a match for every file in the directory of patterns." + TRUST)

p("P28", "Each profile's exclude patterns are kept current for the others",
  "Every sync and every initialization puts the profile's current exclude "
  "patterns into the remote directory under the profile's own identity before "
  "anything is decided from them, and reset takes them away again and no others.",
  "histories configurations",
  "any number of profiles; patterns edited between syncs",
  "needs several profiles and edited pattern files",
  "userdata.py commands/sync.py commands/init.py commands/reset.py",
  [("copy and removal", "userdata.py add_exclude_file, rm_exclude_file")],
  (), ["path and order of the copy and of the removal"],
  AI + "source, destination and order of the copy",
  "The copy precedes the agreement test on all paths." + TRUST)


def main():
    from zcheck import check
    check.load_rules()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in P:
            fh.write(json.dumps(x["row"]) + "\n")
    checks, na = [], []
    extra = json.load(open(os.path.join(HERE, "tools", "na.json"))) \
        if os.path.exists(os.path.join(HERE, "tools", "na.json")) else {}
    for x in P:
        i = x["row"]["id"]
        if i in check.RULES and i not in extra:
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m zcheck %s" % i,
                "thorough_cmd": "python3 -m zcheck %s --thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "static analysis: " + x["tech"],
                "level": "other", "level_note": x["note"]})
        else:
            na.append({"property": i, "reason": extra.get(
                i, "no rules built for it yet")})
    json.dump({
        "version": 1, "setup_cmd": "python3 -c 'import zcheck'",
        "checks": checks, "not_applicable": na,
        "notes": "All checks read /repo's current sources (abstract "
                 "interpretation of the syntax trees) and never run them; see "
                 "DESIGN.md."},
        open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
