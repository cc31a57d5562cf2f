//! The C interface as a C program sees it: declarations only.
use std::ffi::{c_char, c_void};
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Buf {
    pub ptr: *const c_char,
    pub size: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Ts {
    pub secs: i64,
    pub nanos: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Stat {
    pub last_used: Ts,
    pub size: u64,
}
#[repr(C)]
pub struct Item {
    pub key: Buf,
    pub stat: Stat,
}
#[repr(C)]
pub struct Limits {
    pub max_value_length_sum: u64,
    pub disable_hole_punching: bool,
}
pub type P = *mut c_void;
extern "C" {
    pub fn possum_new(path: *const c_char) -> P;
    pub fn possum_drop(h: P);
    pub fn possum_set_instance_limits(h: P, l: *const Limits) -> u32;
    pub fn possum_cleanup_snapshots(h: P) -> u32;
    pub fn possum_single_write_buf(h: P, key: Buf, value: Buf) -> usize;
    pub fn possum_new_writer(h: P) -> P;
    pub fn possum_single_stat(h: P, key: Buf, out: *mut Stat) -> bool;
    pub fn possum_list_items(h: P, prefix: Buf, out: *mut *mut Item, n: *mut usize) -> u32;
    pub fn possum_single_read_at(h: P, key: Buf, buf: *mut Buf, off: u64) -> u32;
    pub fn possum_single_delete(h: P, key: Buf, out: *mut Stat) -> u32;
    pub fn possum_reader_new(h: P, r: *mut P) -> u32;
    pub fn possum_handle_move_prefix(h: P, from: Buf, to: Buf) -> u32;
    pub fn possum_handle_delete_prefix(h: P, prefix: Buf) -> u32;
    pub fn possum_start_new_value(w: P, v: *mut P) -> u32;
    pub fn possum_value_writer_fd(v: P) -> isize;
    pub fn possum_writer_rename(w: P, v: P, key: Buf) -> u32;
    pub fn possum_reader_add(r: P, key: Buf, v: *mut P) -> u32;
    pub fn possum_reader_begin(r: P) -> u32;
    pub fn possum_reader_end(r: P);
    pub fn possum_value_read_at(v: P, buf: *mut Buf, off: u64) -> u32;
    pub fn possum_value_stat(v: P, out: *mut Stat);
    pub fn possum_reader_list_items(r: P, prefix: Buf, out: *mut *mut Item, n: *mut usize) -> u32;
    pub fn possum_writer_commit(w: P) -> u32;
    pub fn possum_writer_stage(w: P, key: Buf, v: P) -> u32;
}
pub fn buf(b: &[u8]) -> Buf {
    // C and Go callers have a null pointer for an empty buffer.
    let ptr = if b.is_empty() { std::ptr::null() } else { b.as_ptr() };
    Buf { ptr: ptr as _, size: b.len() }
}
impl Ts {
    pub fn ms(&self) -> i64 {
        self.secs * 1000 + (self.nanos as i64) / 1_000_000
    }
}
