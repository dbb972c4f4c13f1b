"""The concrete checks per property."""
from c_files import *
from c_db import *
from c_misc import *

CHECKS = {
    "C01": [conflicts, conflict_history],
    "C02": [added, modified, scans, sync_recorded],
    "C03": [deleted],
    "C04": [rm_local, rm_remote, deletion_history],
    "C05": [trash],
    "C06": [cleanup, empty_trash],
    "C07": [select_dirs, select_files, limit_history],
    "C08": [order_dirs, order_files],
    "C09": [profile_map, profile_history],
    "C10": [aggregates, aggregate_history],
    "C11": [remote_map, remote_history],
    "C12": [new_dirs, exclusion, exclusion_history, init_exclusion],
    "C13": [new_dirs, is_unsafe, unsafe_history],
    "C14": [config, template],
    "C15": [transfer, transfer_interrupted],
    "C16": [update_local, link_tree, local_history],
    "C17": [reset, reset_fault],
    "C18": [lock, lock_race, init_race, init_exit],
    "C19": [init_invalid, initialize, init_fault, init_race, init_exit],
    "C20": [sync_order, sync_fault, unreachable],
    "C21": [daemon],
    "C22": [select],
    "C23": [timestamps, config_file, json_file, metadata_history],
}
