"""Which units decide which property, and what remains unproved."""
TRUSTED = [
    "z3 4.x and cvc5 as back ends; PyVC (this repository) as verification condition generator",
    "symbolic models of builtins and of os, shutil, sqlite3 and other library functions (pyvc/lib.py)",
    "machine arithmetic treated as mathematical (Python integers are unbounded; floats as reals)",
]
FILES = "generated trees of at most 14 entries and depth 4"
SPECIAL = "everything found in a synced directory is a regular file, a directory or a symbolic link"
HIST = "generated histories of at most 12 steps over two clients"


SQL = ["SQLite is modelled by tables with primary keys, ON CONFLICT IGNORE and cascading foreign keys (pyvc/sql.py); rows come in no particular order",
       "distinct paths have distinct path IDs, once collisions with stored paths are resolved (64-bit hashes; how they are resolved is proved by *_add_ids)",
       "files and directories are added along with their parents, and no empty path is added, changed or removed"]
MAP = ["create", "open", "get_path_info", "get_paths", "add_ids", "add_paths", "update_paths", "rm_paths"]


def u(module, *names):
    return [(module, n) for n in names]


PROPS = {
    "C01": dict(units=u("conflict", "_rename_files", "rename_local_files", "rename_remote_files", "handle_conflicts", "timestamp_path", "conflict_name") + u("commands", "sync"),
                bounds=FILES + "; " + HIST, bounded=[],
                assumptions=["conflict paths handed to handle_conflicts were found by a scan of both sides",
                             "timestamp_path never returns an existing name (that it never returns its argument is proved); os.path.splitext splits at the last dot of the base name"]),
    "C02": dict(units=u("classify", "compute_added", "compute_modified") + u("fs", "scan_tree", "scan_paths", "scan_paths_cached", "remote_scan_paths", "remote_scan_paths_cached") + u("commands", "sync"),
                bounds=FILES, bounded=[]),
    "C03": dict(units=u("classify", "compute_deleted"), bounds=FILES),
    "C04": dict(units=u("removal", "_rm_files", "rm_local_files", "rm_remote_files") + u("fs", "get_path_ancestry") + u("commands", "sync"),
                bounds=FILES + "; " + HIST, bounded=[],
                assumptions=["no empty path is handed to rm_local_files"]),
    "C05": dict(units=u("removal", "trash_files") + u("fs", "update_mtime"), bounds=FILES),
    "C06": dict(units=u("removal", "cleanup_trash") + u("commands", "sync") + u("reset", "empty_trash"), bounds=FILES, bounded=[]),
    "C07": dict(units=u("commands", "sync") + u("reset", "disk_usage", "get_excluded_size") + u("select", "prioritize_dirs", "prioritize_files"), bounds=FILES + "; " + HIST, bounded=[]),
    "C08": dict(units=u("select", "prioritize_dirs", "prioritize_files") + u("commands", "sync"), bounds=FILES, bounded=[]),
    "C09": dict(units=u("db", *["profile_" + n for n in MAP]) + u("db", "_get_path_id", "_mark_directory", "add_inflated", "increment", "adjust_all"),
                bounds="generated histories of at most 14 operations on paths of depth 4", bounded=["the SQLite engine"], assumptions=SQL),
    "C10": dict(units=u("db", "_update_priority", "_update_local", "profile_add_paths", "profile_update_paths", "profile_rm_paths", "increment", "adjust_all") + u("fs", "get_path_ancestry"),
                bounds="generated histories of at most 14 operations on paths of depth 4", bounded=["the SQLite engine"], assumptions=SQL),
    "C11": dict(units=u("db", *["remote_" + n for n in MAP]) + u("db", "_get_path_id", "_mark_directory"),
                bounds="generated histories of at most 14 operations on paths of depth 4", bounded=["the SQLite engine"], assumptions=SQL),
    "C12": dict(units=u("removal", "rm_excluded_files") + u("exclude", "matches", "all_matches", "check_excluded") + u("update", "update_remote", "setup_from_local") + u("commands", "sync"),
                bounds=FILES + "; " + HIST, bounded=["what glob.glob matches"],
                assumptions=["a line is a comment exactly when its first character that is no blank is #; glob.glob with recursive=True gives what a pattern matches below an escaped directory",
                             "exclude files of other clients are what they were when the sync started"]),
    "C13": dict(units=u("fs", "is_unsafe_symlink", "transfer_tree", "transfer_tree_all") + u("update", "update_remote", "_setup_dir", "setup_from_remote", "setup_from_local"), bounds=FILES + "; " + HIST,
                bounded=[], assumptions=[SPECIAL]),
    "C14": dict(units=u("config", *(["check_" + k for k in ("LocalDir", "RemoteDir", "StorageLimit", "SyncInterval", "PriorityHalfLife", "UseTrash", "TrashCleanupPeriod", "InflatePriority", "AccountForSize")]
                                    + ["default_" + k for k in ("SyncInterval", "PriorityHalfLife", "UseTrash", "TrashCleanupPeriod", "InflatePriority", "AccountForSize")]
                                    + ["local_path", "remote_path", "check_all", "profile_read"])) + u("files", "read_config"),
                bounds="generated config files and values", bounded=[],
                assumptions=["values have only characters up to U+00FF and no newline and are stripped, as they are read from a line",
                             "os.path.expanduser gives an absolute path for ~/ and absolute paths; os.path.normpath keeps what a path denotes",
                             "a negative zero cleanup period and a zero half-life are not specified"]),
    "C15": dict(units=u("fs", "replace_file", "replace_with_symlink", "transfer_tree", "transfer_tree_all"), bounds=FILES,
                bounded=["interruption by a signal at each system call"]),
    "C16": dict(units=u("fs", "symlink_tree", "replace_with_symlink") + u("classify", "compute_stale") + u("update", "update_local") + u("commands", "sync"), bounds=FILES + "; " + HIST,
                bounded=[], assumptions=[SPECIAL]),
    "C17": dict(units=u("reset", "reset", "disk_usage") + u("fs", "transfer_tree"), bounds=FILES + "; one injected fault per run", budget=40,
                bounded=["faults in the middle of a transfer"]),
    "C18": dict(units=u("setup", "lock", "unlock", "setup_profile", "init") + u("commands", "sync") + u("reset", "reset", "empty_trash"),
                bounds="generated races of two processes", budget=30, bounded=["the kernel's exclusivity of an abstract socket"]),
    "C19": dict(units=u("setup", "init", "profile_generate", "_verify_local_dir", "check_dir") + u("update", "setup_from_remote", "setup_from_local"),
                bounds=FILES + "; one injected fault per run", budget=40, bounded=[], assumptions=["profile names have only characters up to U+00FF"]),
    "C20": dict(units=u("commands", "sync") + u("setup", "profile_write", "remote_write", "add_exclude_file"),
                bounds=FILES + "; one injected fault per run", budget=40,
                bounded=["interruption at each system call"]),
    "C21": dict(units=u("daemon", "daemon_main", "_adjust") + u("db", "increment", "increment_repeated", "adjust_all"), bounds="generated schedules of at most 12 events",
                bounded=[],
                assumptions=["the half-life is positive; times of events are positive; neither directory contains the other",
                             "queue.Queue hands out every event once, in the order of the events; events that arrive during a round belong to the next one",
                             "pyinotify calls the given function for every event below the watched directories that is in the mask",
                             "between two rounds nothing but the event loop changes its variables"]),
    "C22": dict(units=u("setup", "select_profile"), bounds="generated sets of at most 5 profiles", bounded=[]),
    "C23": dict(units=u("files", "last_sync", "last_adjust", "json_file", "read_config", "write_config", "config_roundtrip", "line_format"),
                bounds="generated times, time zones, templates and values", bounded=[],
                assumptions=["times are real numbers: the rounding of a double (0.12 microseconds for present dates) is not modelled; years are between 1000 and 9999",
                             "json.load of what json.dump wrote gives the same strings, numbers, lists and dictionaries with string keys",
                             "the local time zone is an arbitrary function; strptime reads what strftime wrote in the same complete format",
                             "lines have only characters up to U+00FF; a text file is what was written to it"]),
}
