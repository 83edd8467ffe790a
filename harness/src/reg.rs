// written by tools/mkreg.py
use crate::*;
#[used]
#[no_mangle]
pub static HARNESSES: &[(&str, H)] = &[
    ("h_smoke", h_basic::h_smoke),
    ("h_batches", h_batch::h_batches),
    ("h_batch_pool", h_batch::h_batch_pool),
    ("h_write_reclaim", h_batch::h_write_reclaim),
    ("h_reclaim_later", h_batch::h_reclaim_later),
    ("h_c_single", h_capi::h_c_single),
    ("h_c_read", h_capi::h_c_read),
    ("h_c_batch", h_capi::h_c_batch),
    ("h_c_limits", h_capi::h_c_limits),
    ("h_c_new", h_capi::h_c_new),
    ("h_c_race", h_capi::h_c_race),
    ("h_crash", h_crash::h_crash),
    ("h_crash_race", h_crash::h_crash_race),
    ("h_crash_open", h_crash::h_crash_open),
    ("h_fault", h_fault::h_fault),
    ("h_copy_fails", h_fault::h_copy_fails),
    ("h_read_fails", h_fault::h_read_fails),
    ("h_commit_fails", h_fault::h_commit_fails),
    ("h_list", h_keys::h_list),
    ("h_rename_item", h_keys::h_rename_item),
    ("h_rename_value", h_keys::h_rename_value),
    ("h_move_prefix", h_keys::h_move_prefix),
    ("h_limit", h_limit::h_limit),
    ("h_no_limit", h_limit::h_no_limit),
    ("h_evict", h_limit::h_evict),
    ("h_last_used", h_limit::h_last_used),
    ("h_batch", h_map::h_batch),
    ("h_history", h_map::h_history),
    ("h_regions", h_names::h_regions),
    ("h_file_id", h_names::h_file_id),
    ("h_walk", h_names::h_walk),
    ("h_reopen", h_open::h_reopen),
    ("h_version", h_open::h_version),
    ("h_race", h_race::h_race),
    ("h_race_cleanup", h_race::h_race_cleanup),
    ("h_race_reclaim", h_race::h_race_reclaim),
    ("h_cleanup_drop", h_race::h_cleanup_drop),
    ("h_read_single", h_read::h_read_single),
    ("h_read_modes", h_read::h_read_modes),
    ("h_read_tx", h_read::h_read_tx),
    ("h_write_ways", h_read::h_write_ways),
    ("h_snapshot", h_snap::h_snapshot),
    ("h_snapshot_consistent", h_snap::h_snapshot_consistent),
    ("h_cleanup", h_snap::h_cleanup),
    ("h_snapshots", h_snap::h_snapshots),
    ("h_punch", h_space::h_punch),
    ("h_punch_closed", h_space::h_punch_closed),
    ("h_punch_disabled", h_space::h_punch_disabled),
    ("h_punch_drop", h_space::h_punch_drop),
    #[cfg(feature = "tool")]("h_missing", h_tool::h_missing),
    #[cfg(feature = "tool")]("h_punch_missing", h_tool::h_punch_missing),
];
