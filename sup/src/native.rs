//! Native implementation of the intrinsics: inputs come from a recorded list.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

struct St {
    inputs: Vec<(u32, u64)>,
    pos: usize,
    log: Vec<u64>,
    failed: Vec<(u32, String)>,
    note: Option<&'static str>,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St{inputs:vec![],pos:0,log:vec![],failed:vec![],note:None}); }
static MAX: AtomicU64 = AtomicU64::new(0);
static OPTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub struct Assume;
pub struct AssertFail;

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size() as u64, Ordering::Relaxed);
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size() as u64, Ordering::Relaxed);
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        MAX.fetch_max(n as u64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn next() -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        // a path that ended early recorded fewer inputs than a native run may ask for
        s.inputs.get(p).map(|x| x.1).unwrap_or(0)
    })
}
pub fn note(c: bool, m: &'static str) {
    if !c {
        ST.with(|s| s.borrow_mut().note = Some(m))
    }
}
#[no_mangle]
extern "C" fn zsym_bits(n: u32) -> u64 {
    let v = next();
    if n >= 64 {
        v
    } else {
        v & ((1 << n) - 1)
    }
}
#[no_mangle]
unsafe extern "C" fn zsym_bytes(p: *mut u8, n: u64) {
    for i in 0..n {
        *p.add(i as usize) = next() as u8;
    }
}
#[no_mangle]
extern "C-unwind" fn zsym_assume(b: bool) {
    if !b {
        std::panic::panic_any(Assume)
    }
}
#[no_mangle]
extern "C-unwind" fn zsym_assert(b: bool, id: u32) {
    if !b {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let m = s.note.take().unwrap_or("").to_string();
            s.failed.push((id, m));
        });
        std::panic::panic_any(AssertFail)
    }
}
#[no_mangle]
extern "C" fn zsym_cover(_: u32) {}
#[no_mangle]
extern "C" fn zsym_log(v: u64) {
    ST.with(|s| s.borrow_mut().log.push(v))
}
#[no_mangle]
extern "C" fn zsym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn zsym_heap_max() -> u64 {
    MAX.load(Ordering::Relaxed)
}
#[no_mangle]
extern "C" fn zsym_opt(id: u32) -> u64 {
    OPTS.get(id as usize).map_or(0, |x| x.load(Ordering::Relaxed))
}

fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect()
}

/// Reads lines `HARNESS opt,opt,.. w:v w:v ...` from stdin, runs each, prints one JSON line each.
pub fn main(table: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        if p.is::<Assume>() || p.is::<AssertFail>() {
            return;
        }
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ST.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.failed.push((0, format!("{m} at {l}")))
            }
        });
    }));
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    for line in text.lines() {
        let mut it = line.split_whitespace();
        let name = it.next().unwrap();
        for (i, o) in it.next().unwrap().split(',').enumerate() {
            OPTS[i].store(o.parse().unwrap(), Ordering::Relaxed);
        }
        let inputs: Vec<(u32, u64)> = it
            .map(|x| {
                let (w, v) = x.split_once(':').unwrap();
                (w.parse().unwrap(), v.parse::<u128>().unwrap() as u64)
            })
            .collect();
        let f = table.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no harness {name}")).1;
        ST.with(|s| *s.borrow_mut() = St { inputs, pos: 0, log: vec![], failed: vec![], note: None });
        MAX.store(0, Ordering::Relaxed);
        let r = std::panic::catch_unwind(f);
        let out = match &r {
            Ok(()) => "done",
            Err(p) if p.is::<Assume>() => "assumed_out",
            Err(p) if p.is::<AssertFail>() => "assert",
            Err(_) => "panic",
        };
        let (log, failed) = ST.with(|s| {
            let s = s.borrow();
            (s.log.clone(), s.failed.clone())
        });
        let l: Vec<String> = log.iter().map(|x| format!("\"{x}\"")).collect();
        let fl: Vec<String> = failed.iter().map(|(i, m)| format!("[{i},\"{}\"]", esc(m))).collect();
        println!(
            "{{\"outcome\":\"{out}\",\"log\":[{}],\"failed\":[{}],\"heap\":{}}}",
            l.join(","),
            fl.join(","),
            MAX.load(Ordering::Relaxed)
        );
    }
}
