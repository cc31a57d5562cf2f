//! Executes one operation, described in JSON, on the real code, and reports its result in JSON.
use crate::capi::{self, Buf, P};
use crate::shim;
use possum::sys::seekhole::{file_regions};
use possum::walk::EntryType;
use possum::{BatchWriter, Error, Handle, ReadTransaction, Snapshot, SnapshotValue, Value, ValueWriter};
use positioned_io::ReadAt;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::ffi::CString;
use std::io::{Read, Seek, Write};
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;

// ---------- content
fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// Byte i of the content with this id; never zero, so that a punched byte is never right.
pub fn byte(id: u64, i: u64) -> u8 {
    let b = (mix(id.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i / 8 + 1)) >> (8 * (i % 8))) as u8;
    if b == 0 {
        0x5a
    } else {
        b
    }
}
pub fn content(id: u64, off: u64, n: u64) -> Vec<u8> {
    (off..off + n).map(|i| byte(id, i)).collect()
}
fn matches(id: u64, pos: u64, b: &[u8]) -> bool {
    b.iter().enumerate().all(|(i, x)| *x == byte(id, pos + i as u64))
}
static IDS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
fn note_id(id: u64) {
    let mut g = shim::lk(&IDS);
    if !g.contains(&id) {
        g.push(id)
    }
}
fn ids_of(op: &J, pos: u64, b: &[u8]) -> Vec<u64> {
    if b.is_empty() {
        return vec![];
    }
    if let Some(a) = op["cand"].as_array() {
        for x in a {
            note_id(x.as_u64().unwrap());
        }
    }
    let g = shim::lk(&IDS).clone();
    g.into_iter().filter(|id| matches(*id, pos, b)).collect()
}

// ---------- objects
enum HObj {
    R(*mut Handle),
    C(P),
}
enum Batch {
    R(BatchWriter<&'static Handle>),
    C(P),
}
enum Vw {
    R(ValueWriter),
    C(P),
}
enum RCmd<'a> {
    Add(&'a [u8]),
    List(&'a [u8]),
    Begin,
}
enum RRes {
    Val(Option<Value>),
    Items(Vec<(Vec<u8>, u64, i64)>),
    Snap(Snapshot),
}
type RFn = Box<dyn FnMut(RCmd) -> Result<RRes, (String, String)>>;
enum Rd {
    R(RFn, Vec<Value>),
    C(P, Vec<P>),
}
enum Snap {
    R(Vec<Option<SnapshotValue<Value>>>),
    C(P, Vec<P>),
}
#[derive(Default)]
struct Objs {
    h: HashMap<u64, HObj>,
    b: HashMap<u64, Batch>,
    v: HashMap<u64, Vw>,
    r: HashMap<u64, Rd>,
    s: HashMap<u64, Snap>,
    done: HashMap<u64, Box<dyn Fn()>>,
}
struct Shared(Mutex<Option<Objs>>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
static OBJS: Shared = Shared(Mutex::new(None));
fn objs<R>(f: impl FnOnce(&mut Objs) -> R) -> R {
    f(shim::lk(&OBJS.0).get_or_insert_with(Default::default))
}
fn u(op: &J, k: &str) -> u64 {
    op[k].as_u64().unwrap_or_else(|| panic!("harness: no {k} in {op}"))
}
fn key(op: &J, k: &str) -> Vec<u8> {
    op[k]
        .as_array()
        .unwrap_or_else(|| panic!("harness: no key {k} in {op}"))
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}
fn jkey(k: &[u8]) -> J {
    json!(k)
}
enum HRef {
    R(&'static Handle, *mut Handle),
    C(P),
}
fn handle(op: &J) -> HRef {
    let id = u(op, "h");
    objs(|o| match o.h.get(&id).expect("harness: no such handle") {
        HObj::R(p) => HRef::R(unsafe { &**p }, *p),
        HObj::C(p) => HRef::C(*p),
    })
}
type Res = Result<J, (String, String)>;
fn pe(e: Error) -> (String, String) {
    let k = match &e {
        Error::NoSuchKey => "nokey",
        Error::Sqlite(_) => "sqlite",
        Error::Io(_) => "io",
        _ => "other",
    };
    (k.into(), format!("{e:?}"))
}
fn ae(e: anyhow::Error) -> (String, String) {
    ("other".into(), format!("{e:#}"))
}
fn se(e: rusqlite::Error) -> (String, String) {
    ("sqlite".into(), format!("{e:?}"))
}
fn ie(e: std::io::Error) -> (String, String) {
    ("io".into(), format!("{e:?}"))
}
fn ce(e: u32) -> Result<(), (String, String)> {
    match e {
        0 => Ok(()),
        1 => Err(("nokey".into(), "c".into())),
        2 => Err(("sqlite".into(), "c".into())),
        3 => Err(("io".into(), "c".into())),
        4 => Err(("other".into(), "c".into())),
        x => Err(("other".into(), format!("c{x}"))),
    }
}
#[allow(deprecated)]
fn lu(v: &Value) -> i64 {
    v.last_used().timestamp_millis() - shim::BASE_MS
}
fn vjson(v: &Value) -> J {
    json!({"len": v.length(), "lu": lu(v)})
}
fn stat_json(s: &capi::Stat) -> J {
    json!({"len": s.size, "lu": s.last_used.ms() - shim::BASE_MS})
}
fn items_json(v: Vec<(Vec<u8>, u64, i64)>) -> J {
    json!(v.into_iter().map(|(k, n, l)| json!({"k": jkey(&k), "len": n, "lu": l})).collect::<Vec<_>>())
}

// ---------- sources
struct Short<'a> {
    b: &'a [u8],
    step: usize,
    fail_at: Option<usize>,
    pos: usize,
    intr: bool,
}
impl Read for Short<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::other("source failed"));
            }
        }
        if self.intr {
            self.intr = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = out.len().min(self.step).min(self.b.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn tmp_file(bytes: &[u8]) -> std::fs::File {
    shim::quiet(|| {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = PathBuf::from(format!(
            "{}/pv-src-{}-{}",
            std::env::var("PV_TMP").unwrap_or("/tmp".into()),
            std::process::id(),
            N.fetch_add(1, SeqCst)
        ));
        let mut f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create_new(true)
            .open(&p)
            .expect("harness: tmp file");
        f.write_all(bytes).unwrap();
        f.rewind().unwrap();
        std::fs::remove_file(&p).unwrap();
        f
    })
}
/// Copy from the kind of source the op asks for; f takes a reader.
fn copy_src(op: &J, w: &mut ValueWriter, bytes: &[u8]) -> Result<u64, Error> {
    match op["src"].as_str().unwrap_or("slice") {
        "slice" => w.copy_from(bytes),
        "short" => w.copy_from(Short { b: bytes, step: 1000, fail_at: None, pos: 0, intr: true }),
        "fail" => w.copy_from(Short { b: bytes, step: 5000, fail_at: Some(u(op, "good") as usize), pos: 0, intr: false }),
        "file" => w.copy_from(&mut tmp_file(bytes)),
        x => panic!("harness: src {x}"),
    }
}
fn fd_write(fd: i32, mut b: &[u8]) -> std::io::Result<()> {
    while !b.is_empty() {
        let n = unsafe { shim::write(fd, b.as_ptr() as _, b.len()) };
        if n < 0 {
            return Err(std::io::Error::last_os_error());
        }
        b = &b[n as usize..];
    }
    Ok(())
}

fn mk_reader(h: &'static Handle) -> Result<RFn, (String, String)> {
    let mut rd = Some(h.read().map_err(se)?);
    Ok(Box::new(move |c| match c {
        RCmd::Add(k) => rd.as_mut().unwrap().add(k).map(RRes::Val).map_err(se),
        RCmd::List(p) => rd
            .as_ref()
            .unwrap()
            .list_items(p)
            .map(|v| RRes::Items(v.into_iter().map(|i| (i.key.clone(), i.value.length(), lu(&i.value))).collect()))
            .map_err(pe),
        RCmd::Begin => rd.take().unwrap().begin().map(RRes::Snap).map_err(ae),
    }))
}
fn limits_call<T: Default>(f: fn(&mut Handle, T) -> anyhow::Result<()>, h: &mut Handle, set: impl FnOnce(&mut T)) -> anyhow::Result<()> {
    let mut l = T::default();
    set(&mut l);
    f(h, l)
}

unsafe fn c_items(prefix: &[u8], out: *mut capi::Item, n: usize) -> Vec<(Vec<u8>, u64, i64)> {
    let mut v = vec![];
    for i in 0..n {
        let it = &*out.add(i);
        let mut k = prefix.to_vec();
        if it.key.size > 0 {
            k.extend_from_slice(std::slice::from_raw_parts(it.key.ptr as *const u8, it.key.size));
        }
        libc::free(it.key.ptr as *mut _);
        v.push((k, it.stat.size, it.stat.last_used.ms() - shim::BASE_MS));
    }
    libc::free(out as *mut _);
    v
}
const CANARY: u8 = 0xA7;
fn read_json(op: &J, pos: u64, b: &[u8], claimed: usize, total: &[u8]) -> J {
    // total = whole buffer handed out (b is the part allowed to be written)
    let clean = claimed <= b.len() && total[claimed.min(total.len())..].iter().all(|x| *x == CANARY);
    let got = &b[..claimed.min(b.len())];
    json!({"n": claimed, "ids": ids_of(op, pos, got), "clean": clean})
}

pub fn exec(op: &J) -> Res {
    let o = op["o"].as_str().unwrap();
    if op["cli"].as_bool() == Some(true) {
        return cli(op);
    }
    match o {
        "open" => {
            let dir = op["dir"].as_str().unwrap();
            let id = u(op, "h");
            let before = shim::NPUNCHERS.load(SeqCst);
            shim::OPENING.store(id as i32, SeqCst);
            let hobj = if op["api"] == "c" {
                let c = CString::new(dir).unwrap();
                let p = unsafe { capi::possum_new(c.as_ptr()) };
                if p.is_null() {
                    return Err(("other".into(), "possum_new returned null".into()));
                }
                HObj::C(p)
            } else {
                HObj::R(Box::into_raw(Box::new(Handle::new(PathBuf::from(dir)).map_err(ae)?)))
            };
            // Let the reclaimer thread show itself, so that it gets this handle's name.
            let t0 = std::time::Instant::now();
            while shim::NPUNCHERS.load(SeqCst) == before && t0.elapsed().as_millis() < 1000 {
                std::thread::yield_now();
            }
            let cl = match &hobj {
                HObj::R(p) => unsafe { (**p).dir_supports_file_cloning() },
                HObj::C(_) => shim::CLONE.load(SeqCst),
            };
            let bs = match &hobj {
                HObj::R(p) => unsafe { (**p).block_size() },
                HObj::C(_) => 0,
            };
            objs(|o| o.h.insert(id, hobj));
            Ok(json!({"clone": cl, "bs": bs}))
        }
        "close" => {
            let id = u(op, "h");
            match objs(|o| o.h.remove(&id)).unwrap() {
                HObj::R(p) => unsafe {
                    let d = (*p).get_value_puncher_done();
                    objs(|o| o.done.insert(id, Box::new(move || d.wait())));
                    drop(Box::from_raw(p));
                },
                HObj::C(p) => unsafe { capi::possum_drop(p) },
            }
            Ok(json!({}))
        }
        "pwait" => {
            let f = objs(|o| o.done.remove(&u(op, "h"))).unwrap();
            f();
            Ok(json!({}))
        }
        "limits" => {
            let max = op["max"].as_i64().unwrap();
            let nohp = op["nohp"].as_bool().unwrap_or(false);
            match handle(op) {
                HRef::R(_, p) => {
                    limits_call(Handle::set_instance_limits, unsafe { &mut *p }, |l| {
                        l.max_value_length_sum = (max >= 0).then_some(max as u64);
                        l.disable_hole_punching = nohp;
                    })
                    .map_err(ae)?;
                }
                HRef::C(p) => {
                    let l = capi::Limits {
                        max_value_length_sum: if max >= 0 { max as u64 } else { u64::MAX },
                        disable_hole_punching: nohp,
                    };
                    ce(unsafe { capi::possum_set_instance_limits(p, &l) })?;
                }
            }
            Ok(json!({}))
        }
        "put" => {
            let (id, n) = (u(op, "id"), u(op, "n"));
            note_id(id);
            let k = key(op, "k");
            let bytes = content(id, 0, n);
            match handle(op) {
                HRef::R(h, _) => {
                    let r = match op["src"].as_str().unwrap_or("slice") {
                        "slice" => h.single_write_from(k, &bytes[..]),
                        "short" => h.single_write_from(k, Short { b: &bytes, step: 1000, fail_at: None, pos: 0, intr: true }),
                        "fail" => h.single_write_from(k, Short { b: &bytes, step: 5000, fail_at: Some(u(op, "good") as usize), pos: 0, intr: false }),
                        "file" => h.single_write_from(k, &mut tmp_file(&bytes)),
                        x => panic!("harness: src {x}"),
                    };
                    let (n, c) = r.map_err(ae)?;
                    Ok(json!({"n": n, "count": c.count()}))
                }
                HRef::C(p) => {
                    let r = unsafe { capi::possum_single_write_buf(p, capi::buf(&k), capi::buf(&bytes)) };
                    if r == usize::MAX {
                        return Err(("other".into(), "c".into()));
                    }
                    Ok(json!({"n": r, "count": 1}))
                }
            }
        }
        "clonefrom" => {
            let (id, n) = (u(op, "id"), u(op, "n"));
            note_id(id);
            let mut f = tmp_file(&content(id, 0, n));
            if op["seek"].as_bool() == Some(true) {
                f.seek(std::io::SeekFrom::Start(n / 2)).unwrap();
            }
            match handle(op) {
                HRef::R(_, p) => {
                    let n = unsafe { &mut *p }.clone_from_file(key(op, "k"), &mut f).map_err(ae)?;
                    Ok(json!({"n": n, "count": 1}))
                }
                _ => panic!("harness: clonefrom on C"),
            }
        }
        "get" => {
            let k = key(op, "k");
            match handle(op) {
                HRef::R(h, _) => match h.read_single(&k).map_err(ae)? {
                    None => Ok(json!({"len": -1})),
                    Some(v) => {
                        let j = vjson(&v);
                        objs(|o| o.s.insert(u(op, "s"), Snap::R(vec![Some(v)])));
                        Ok(j)
                    }
                },
                HRef::C(p) => {
                    let mut st = capi::Stat::default();
                    let ok = unsafe { capi::possum_single_stat(p, capi::buf(&k), &mut st) };
                    if !ok {
                        return Ok(json!({"len": -1}));
                    }
                    Ok(stat_json(&st))
                }
            }
        }
        "cread" => {
            // possum_single_read_at
            let HRef::C(p) = handle(op) else { panic!("harness: cread") };
            let k = key(op, "k");
            let (pos, n) = (u(op, "pos"), u(op, "n") as usize);
            let mut b = vec![CANARY; n + 64];
            let mut buf = Buf { ptr: if n == 0 { std::ptr::null_mut() } else { b.as_mut_ptr() } as _, size: n };
            ce(unsafe { capi::possum_single_read_at(p, capi::buf(&k), &mut buf, pos) })?;
            Ok(read_json(op, pos, &b[..n], buf.size, &b))
        }
        "del" => {
            let k = key(op, "k");
            match handle(op) {
                HRef::R(h, _) => match h.single_delete(&k).map_err(pe)? {
                    None => Ok(json!({"len": -1})),
                    Some(st) => Ok(
                        json!({"len": st.size, "lu": st.last_used.secs * 1000 + (st.last_used.nanos / 1_000_000) as i64 - shim::BASE_MS}),
                    ),
                },
                HRef::C(p) => {
                    let mut st = capi::Stat::default();
                    let null = op["null"].as_bool() == Some(true);
                    let e = unsafe {
                        capi::possum_single_delete(p, capi::buf(&k), if null { std::ptr::null_mut() } else { &mut st })
                    };
                    match ce(e) {
                        Err((k, _)) if k == "nokey" => Ok(json!({"len": -1})),
                        Err(e) => Err(e),
                        Ok(()) if null => Ok(json!({"len": -2})),
                        Ok(()) => Ok(stat_json(&st)),
                    }
                }
            }
        }
        "ren" => match handle(op) {
            #[allow(deprecated)]
            HRef::R(_, p) => {
                let t = unsafe { &mut *p }.rename_item(&key(op, "from"), &key(op, "to")).map_err(pe)?;
                Ok(json!({"lu": t.timestamp_millis() - shim::BASE_MS}))
            }
            HRef::C(_) => panic!("harness: ren on C"),
        },
        "mvp" => {
            let (f, t) = (key(op, "from"), key(op, "to"));
            match handle(op) {
                HRef::R(h, _) => h.move_prefix(&f, &t).map_err(ae)?,
                HRef::C(p) => ce(unsafe { capi::possum_handle_move_prefix(p, capi::buf(&f), capi::buf(&t)) })?,
            }
            Ok(json!({}))
        }
        "delp" => {
            let k = key(op, "p");
            match handle(op) {
                HRef::R(h, _) => h.delete_prefix(&k).map_err(pe)?,
                HRef::C(p) => ce(unsafe { capi::possum_handle_delete_prefix(p, capi::buf(&k)) })?,
            }
            Ok(json!({}))
        }
        "ls" => {
            let k = key(op, "p");
            let v = match handle(op) {
                HRef::R(h, _) => h
                    .list_items(&k)
                    .map_err(pe)?
                    .into_iter()
                    .map(|i| (i.key.clone(), i.value.length(), lu(&i.value)))
                    .collect(),
                HRef::C(p) => unsafe {
                    let mut out = std::ptr::null_mut();
                    let mut n = 0;
                    ce(capi::possum_list_items(p, capi::buf(&k), &mut out, &mut n))?;
                    c_items(&k, out, n)
                },
            };
            Ok(json!({"items": items_json(v)}))
        }
        "sum" => match handle(op) {
            HRef::R(h, _) => {
                let tx = h.start_deferred_transaction_for_read().map_err(se)?;
                Ok(json!({"sum": tx.sum_value_length().map_err(se)?}))
            }
            _ => panic!("harness: sum on C"),
        },
        "cleanup" => {
            match handle(op) {
                HRef::R(h, _) => h.cleanup_snapshots().map_err(pe)?,
                HRef::C(p) => ce(unsafe { capi::possum_cleanup_snapshots(p) })?,
            }
            Ok(json!({}))
        }
        "walk" => match handle(op) {
            HRef::R(h, _) => {
                let mut v: Vec<(String, String)> = vec![];
                for e in h.walk_dir().map_err(ae)? {
                    let t = match e.entry_type {
                        EntryType::ManifestFile => "manifest",
                        EntryType::SnapshotDir => "snapdir",
                        EntryType::SnapshotValue => "snapvalue",
                        EntryType::ValuesFile => "values",
                        EntryType::Unknown => "unknown",
                    };
                    let base = h.dir().path().to_path_buf();
                    let rel = e.path.strip_prefix(&base).unwrap_or(&e.path).to_string_lossy().to_string();
                    v.push((t.into(), rel));
                }
                v.sort();
                Ok(json!({"entries": v}))
            }
            _ => panic!("harness: walk on C"),
        },
        // ---- batches
        "bnew" => {
            let b = match handle(op) {
                HRef::R(h, _) => Batch::R(h.new_writer().map_err(ae)?),
                HRef::C(p) => Batch::C(unsafe { capi::possum_new_writer(p) }),
            };
            objs(|o| o.b.insert(u(op, "b"), b));
            Ok(json!({}))
        }
        "vbegin" => {
            let bid = u(op, "b");
            let mut b = objs(|o| o.b.remove(&bid)).unwrap();
            let r = match &mut b {
                Batch::R(w) => w.new_value().begin().map(Vw::R).map_err(pe),
                Batch::C(p) => {
                    let mut v = std::ptr::null_mut();
                    ce(unsafe { capi::possum_start_new_value(*p, &mut v) }).map(|_| Vw::C(v))
                }
            };
            objs(|o| o.b.insert(bid, b));
            let v = r?;
            objs(|o| o.v.insert(u(op, "v"), v));
            Ok(json!({}))
        }
        "vclone" => {
            let bid = u(op, "b");
            let (id, n) = (u(op, "id"), u(op, "n"));
            note_id(id);
            let mut f = tmp_file(&content(id, 0, n));
            let mut b = objs(|o| o.b.remove(&bid)).unwrap();
            let r = match &mut b {
                Batch::R(w) => w.new_value().clone_file(&mut f).map_err(pe),
                _ => panic!("harness: vclone on C"),
            };
            objs(|o| o.b.insert(bid, b));
            let v = r?;
            objs(|o| o.v.insert(u(op, "v"), Vw::R(v)));
            Ok(json!({}))
        }
        "vwrite" => {
            // appends bytes [off, off+n) of content id
            let vid = u(op, "v");
            let (id, off, n) = (u(op, "id"), u(op, "off"), u(op, "n"));
            note_id(id);
            let bytes = content(id, off, n);
            let mut v = objs(|o| o.v.remove(&vid)).unwrap();
            let r: Res = match &mut v {
                Vw::R(w) => match op["via"].as_str().unwrap_or("write") {
                    "write" => w.write_all(&bytes).map(|_| json!({"n": n})).map_err(ie),
                    "copy" => copy_src(op, w, &bytes).map(|n| json!({"n": n})).map_err(pe),
                    "fd" => {
                        use std::os::fd::AsRawFd;
                        let fd = w.get_file().map_err(ae)?.as_raw_fd();
                        fd_write(fd, &bytes).map(|_| json!({"n": n})).map_err(ie)
                    }
                    x => panic!("harness: via {x}"),
                },
                Vw::C(p) => {
                    let fd = unsafe { capi::possum_value_writer_fd(*p) } as i32;
                    fd_write(fd, &bytes).map(|_| json!({"n": n})).map_err(ie)
                }
            };
            objs(|o| o.v.insert(vid, v));
            r
        }
        "vlen" => {
            let vid = u(op, "v");
            let mut v = objs(|o| o.v.remove(&vid)).unwrap();
            let r = match &mut v {
                Vw::R(w) => w.value_length().map(|n| json!({"n": n})).map_err(ie),
                _ => panic!("harness: vlen on C"),
            };
            objs(|o| o.v.insert(vid, v));
            r
        }
        "vdrop" => {
            match objs(|o| o.v.remove(&u(op, "v"))).unwrap() {
                Vw::R(w) => drop(w),
                Vw::C(_) => panic!("harness: vdrop on C"),
            }
            Ok(json!({}))
        }
        "stage" => {
            let (bid, vid) = (u(op, "b"), u(op, "v"));
            let k = key(op, "k");
            let mut b = objs(|o| o.b.remove(&bid)).unwrap();
            let v = objs(|o| o.v.remove(&vid)).unwrap();
            let r = match (&mut b, v) {
                (Batch::R(w), Vw::R(v)) => w.stage_write(k, v).map_err(ae),
                (Batch::C(w), Vw::C(v)) => ce(unsafe { capi::possum_writer_stage(*w, capi::buf(&k), v) }),
                _ => panic!("harness: mixed api"),
            };
            objs(|o| o.b.insert(bid, b));
            r.map(|_| json!({}))
        }
        "brename" => {
            let bid = u(op, "b");
            let k = key(op, "k");
            let i = u(op, "i") as usize;
            let mut b = objs(|o| o.b.remove(&bid)).unwrap();
            let sid = u(op, "s");
            let r = objs(|o| match (&mut b, o.s.get(&sid).unwrap()) {
                (Batch::R(w), Snap::R(vs)) => {
                    let v: Value = **vs[i].as_ref().unwrap();
                    w.rename_value(v, k);
                    Ok(())
                }
                (Batch::C(w), Snap::C(_, vs)) => ce(unsafe { capi::possum_writer_rename(*w, vs[i], capi::buf(&k)) }),
                _ => panic!("harness: mixed api"),
            });
            objs(|o| o.b.insert(bid, b));
            r.map(|_| json!({}))
        }
        "commit" => match objs(|o| o.b.remove(&u(op, "b"))).unwrap() {
            Batch::R(w) => w.commit().map(|c| json!({"count": c.count()})).map_err(ae),
            Batch::C(p) => ce(unsafe { capi::possum_writer_commit(p) }).map(|_| json!({"count": -1})),
        },
        "bdrop" => {
            match objs(|o| o.b.remove(&u(op, "b"))).unwrap() {
                Batch::R(w) => drop(w),
                Batch::C(_) => panic!("harness: bdrop on C"),
            }
            Ok(json!({}))
        }
        // ---- readers and snapshots
        "rnew" => {
            let r = match handle(op) {
                HRef::R(h, _) => Rd::R(mk_reader(h)?, vec![]),
                HRef::C(p) => {
                    let mut r = std::ptr::null_mut();
                    ce(unsafe { capi::possum_reader_new(p, &mut r) })?;
                    Rd::C(r, vec![])
                }
            };
            objs(|o| o.r.insert(u(op, "r"), r));
            Ok(json!({}))
        }
        "radd" => {
            let rid = u(op, "r");
            let k = key(op, "k");
            let mut r = objs(|o| o.r.remove(&rid)).unwrap();
            let res: Res = match &mut r {
                Rd::R(f, vals) => match f(RCmd::Add(&k)) {
                    Err(e) => Err(e),
                    Ok(RRes::Val(Some(v))) => {
                        vals.push(v);
                        Ok(vjson(&v))
                    }
                    Ok(_) => Ok(json!({"len": -1})),
                },
                Rd::C(p, vals) => {
                    let mut v = std::ptr::null_mut();
                    match ce(unsafe { capi::possum_reader_add(*p, capi::buf(&k), &mut v) }) {
                        Err((k, _)) if k == "nokey" => Ok(json!({"len": -1})),
                        Err(e) => Err(e),
                        Ok(()) => {
                            let mut st = capi::Stat::default();
                            unsafe { capi::possum_value_stat(v, &mut st) };
                            vals.push(v);
                            Ok(stat_json(&st))
                        }
                    }
                }
            };
            objs(|o| o.r.insert(rid, r));
            res
        }
        "rls" => {
            let rid = u(op, "r");
            let k = key(op, "p");
            let mut r = objs(|o| o.r.remove(&rid)).unwrap();
            let res: Res = match &mut r {
                Rd::R(f, _) => match f(RCmd::List(&k)) {
                    Ok(RRes::Items(v)) => Ok(json!({"items": items_json(v)})),
                    Ok(_) => unreachable!(),
                    Err(e) => Err(e),
                },
                Rd::C(p, _) => unsafe {
                    let mut out = std::ptr::null_mut();
                    let mut n = 0;
                    ce(capi::possum_reader_list_items(*p, capi::buf(&k), &mut out, &mut n))
                        .map(|_| json!({"items": items_json(c_items(&k, out, n))}))
                },
            };
            objs(|o| o.r.insert(rid, r));
            res
        }
        "rbegin" => match objs(|o| o.r.remove(&u(op, "r"))).unwrap() {
            Rd::R(mut f, vals) => match f(RCmd::Begin)? {
                RRes::Snap(s) => {
                    let vs = vals.into_iter().map(|v| Some(s.value(v))).collect();
                    objs(|o| o.s.insert(u(op, "s"), Snap::R(vs)));
                    Ok(json!({}))
                }
                _ => unreachable!(),
            },
            Rd::C(p, vals) => match ce(unsafe { capi::possum_reader_begin(p) }) {
                Ok(()) => {
                    objs(|o| o.s.insert(u(op, "s"), Snap::C(p, vals)));
                    Ok(json!({}))
                }
                Err(e) => {
                    unsafe { capi::possum_reader_end(p) };
                    Err(e)
                }
            },
        },
        "rdrop" => {
            match objs(|o| o.r.remove(&u(op, "r"))).unwrap() {
                Rd::R(f, _) => drop(f),
                Rd::C(p, _) => unsafe { capi::possum_reader_end(p) },
            }
            Ok(json!({}))
        }
        "sread" => {
            let sid = u(op, "s");
            let i = u(op, "i") as usize;
            let (pos, n) = (u(op, "pos"), u(op, "n") as usize);
            let s = objs(|o| o.s.remove(&sid)).unwrap();
            let r: Res = (|| match &s {
                Snap::R(vs) => {
                    let v = vs[i].as_ref().unwrap();
                    match op["m"].as_str().unwrap() {
                        "at" => {
                            let mut b = vec![CANARY; n + 64];
                            let got = v.read_at(pos, &mut b[..n]).map_err(ie)?;
                            Ok(read_json(op, pos, &b[..n], got, &b))
                        }
                        "read" => {
                            let mut b = vec![CANARY; n + 64];
                            let got = v.read(&mut b[..n]).map_err(ae)?;
                            Ok(read_json(op, 0, &b[..n], got, &b))
                        }
                        "view" => v
                            .view(|b| json!({"n": b.len(), "ids": ids_of(op, 0, b), "clean": true}))
                            .map_err(ie),
                        "reader" => {
                            let mut b = vec![];
                            let mut rd = v.new_reader();
                            let mut chunk = vec![0u8; 1 + n];
                            loop {
                                let k = rd.read(&mut chunk).map_err(ie)?;
                                if k == 0 {
                                    break;
                                }
                                b.extend_from_slice(&chunk[..k]);
                            }
                            Ok(json!({"n": b.len(), "ids": ids_of(op, 0, &b), "clean": true}))
                        }
                        x => panic!("harness: m {x}"),
                    }
                }
                Snap::C(_, vs) => {
                    let mut b = vec![CANARY; n + 64];
                    let mut buf = Buf { ptr: if n == 0 { std::ptr::null_mut() } else { b.as_mut_ptr() } as _, size: n };
                    ce(unsafe { capi::possum_value_read_at(vs[i], &mut buf, pos) })?;
                    Ok(read_json(op, pos, &b[..n], buf.size, &b))
                }
            })();
            objs(|o| o.s.insert(sid, s));
            r
        }
        "sstat" => {
            let sid = u(op, "s");
            let i = u(op, "i") as usize;
            objs(|o| match o.s.get(&sid).unwrap() {
                Snap::R(vs) => Ok(vjson(vs[i].as_ref().unwrap())),
                Snap::C(_, vs) => {
                    let mut st = capi::Stat::default();
                    unsafe { capi::possum_value_stat(vs[i], &mut st) };
                    Ok(stat_json(&st))
                }
            })
        }
        "sdrop" => {
            let s = objs(|o| o.s.remove(&u(op, "s"))).unwrap();
            match s {
                Snap::R(v) => drop(v),
                Snap::C(p, _) => unsafe { capi::possum_reader_end(p) },
            }
            Ok(json!({}))
        }
        "sdropv" => {
            let i = u(op, "i") as usize;
            let v = objs(|o| match o.s.get_mut(&u(op, "s")).unwrap() {
                Snap::R(v) => v[i].take(),
                Snap::C(..) => None,
            });
            drop(v);
            Ok(json!({}))
        }
        "regions" => {
            let mut f = std::fs::File::open(op["path"].as_str().unwrap()).map_err(ie)?;
            let v: Vec<J> = file_regions(&mut f)
                .map_err(ae)?
                .into_iter()
                .map(|r| json!({"f": op["f"], "t": format!("{:?}", r.region_type).to_lowercase(), "a": r.start, "b": r.end}))
                .collect();
            Ok(json!({"lines": v}))
        }
        x => panic!("harness: op {x}"),
    }
}

/// One run of the command line tool, whose arguments are those of this process.
fn cli(op: &J) -> Res {
    let o = op["o"].as_str().unwrap();
    shim::OPENING.store(u(op, "h") as i32, SeqCst);
    if let Some(src) = op["src_file"].as_array() {
        let b: Vec<u8> = src.iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let p: std::ffi::OsString = std::os::unix::ffi::OsStringExt::from_vec(b);
        note_id(u(op, "id"));
        shim::quiet(|| std::fs::write(p, content(u(op, "id"), 0, u(op, "n"))).unwrap());
    }
    let r = crate::cli::go();
    std::io::stdout().flush().unwrap();
    let out = shim::quiet(|| std::fs::read(std::env::var("PV_CLI").unwrap()).unwrap());
    if let Err(e) = r {
        let m = format!("{e:#}");
        return Err(if e.downcast_ref::<rusqlite::Error>().is_some() {
            ("sqlite".into(), m)
        } else if e.downcast_ref::<std::io::Error>().is_some() {
            ("io".into(), m)
        } else if let Ok(e) = e.downcast::<Error>() {
            pe(e)
        } else if o == "cread" {
            ("nokey".into(), m)
        } else {
            ("other".into(), m)
        });
    }
    let lines = || out.split_inclusive(|x| *x == b'\n').map(|l| l.strip_suffix(b"\n").unwrap_or(l));
    Ok(match o {
        "put" => json!({"n": u(op, "n"), "count": 1}),
        "cread" => json!({"n": out.len(), "ids": ids_of(op, 0, &out), "clean": true}),
        "clils" => json!({"keys": lines().collect::<Vec<_>>()}),
        "cllast" => json!({"n": String::from_utf8_lossy(&out).trim().parse::<i64>().unwrap_or(-1)}),
        _ => {
            // file: [type, ]from-to (length ...)
            let parse = |l: &str| -> Option<J> {
                let (f, rest) = l.rsplit_once(" (length ")?.0.split_once(": ")?;
                let (t, rest) = rest.split_once(", ").unwrap_or(("", rest));
                let (a, b) = rest.split_once('-')?;
                let f = f.rsplit('/').next()?;
                Some(json!({"f": f, "t": t.to_lowercase(), "a": a.parse::<u64>().ok()?, "b": b.parse::<u64>().ok()?}))
            };
            let v: Vec<J> = lines()
                .map(|l| {
                    let l = String::from_utf8_lossy(l);
                    parse(&l).unwrap_or(json!({"f": l, "t": "?", "a": -1, "b": -1}))
                })
                .collect();
            json!({"lines": v})
        }
    })
}
