//! Exploring with several processes: one that has states to spare and sees a free place forks, and the
//! child takes half of them. Each leaves what it found in a file; the first one collects them.
use crate::exec::*;
use crate::{de, explore, ser};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn getpid() -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub struct Team { shared: *const [AtomicI32; 3], dir: String, children: Vec<i32>, born: std::time::Instant, samples: usize }
impl Team {
    fn free(&self) -> &AtomicI32 { unsafe { &(*self.shared)[0] } }
    pub fn stop(&self) { unsafe { (*self.shared)[1].store(1, SeqCst); } }
    pub fn stopped(&self) -> bool { unsafe { (*self.shared)[1].load(SeqCst) != 0 } }
    fn take(&self) -> bool { self.free().load(SeqCst) > 0 && { if self.free().fetch_sub(1, SeqCst) > 0 { true } else { self.free().fetch_add(1, SeqCst); false } } }
}
/// waits for the processes this one started and leaves its results; the number of those that died
fn finish(e: &mut Engine) -> ! {
    let t = e.team.as_mut().unwrap();
    t.free().fetch_add(1, SeqCst);
    for pid in std::mem::take(&mut t.children) {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0); }
        if s != 0 { e.errors.push(format!("worker died (status {})", s)); }
    }
    let t = e.team.as_ref().unwrap();
    let ok = std::fs::write(format!("{}/{}", t.dir, unsafe { getpid() }), ser(e) + "D\n").is_ok();
    unsafe { _exit(if ok { 0 } else { 5 }) }
}
fn start(e: &mut Engine) -> bool {
    let pid = unsafe { fork() };
    if pid < 0 { return false; }
    let t = e.team.as_mut().unwrap();
    if pid == 0 {
        t.children.clear();
        t.born = std::time::Instant::now();
        e.cfg.samples = t.samples;
        e.st = Default::default(); e.z.st = Default::default(); e.reach.clear(); e.used.clear(); e.exts.clear(); e.errors.clear(); e.viols.clear(); e.samples.clear();
        return true;
    }
    t.children.push(pid);
    false
}
/// gives half of the states away if there is a free place; the new process returns true once it has nothing of the caller's to do
pub fn share(e: &mut Engine) -> bool {
    let t = e.team.as_ref().unwrap();
    if t.born.elapsed().as_millis() < 20 || !t.take() { return false; }
    let n = e.pending.len();
    let give = (n + 1) / 2;
    // the oldest states have most of the work under them
    let rest = e.pending.split_off(give);
    let given = std::mem::replace(&mut e.pending, rest);
    let before = e.team.as_ref().unwrap().children.len();
    if start(e) {
        e.pending = given;
        explore(e);
        finish(e);
    }
    if e.team.as_ref().unwrap().children.len() == before {
        // no new process: keep them
        e.team.as_ref().unwrap().free().fetch_add(1, SeqCst);
        let rest = std::mem::replace(&mut e.pending, given);
        e.pending.extend(rest);
    }
    false
}
pub fn run(e: &mut Engine, jobs: usize) {
    let dir = std::env::temp_dir().join(format!("symx.{}", unsafe { getpid() }));
    let _ = std::fs::create_dir_all(&dir);
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const [AtomicI32; 3];
    assert!(shared as isize != -1);
    e.team = Some(Team { shared, dir: dir.to_str().unwrap().into(), children: vec![], born: std::time::Instant::now(), samples: (e.cfg.samples / 4).max(1) });
    e.team.as_ref().unwrap().free().store(jobs as i32 - 1, SeqCst);
    explore(e);
    let t = e.team.take().unwrap();
    for pid in t.children {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0); }
        if s != 0 { e.errors.push(format!("worker died (status {})", s)); }
    }
    if let Ok(l) = std::fs::read_dir(&dir) {
        for f in l.flatten() {
            match std::fs::read_to_string(f.path()) { Ok(t) if de(e, &t) => {} _ => e.errors.push("a worker left no result".into()) }
            let _ = std::fs::remove_file(f.path());
        }
    }
    let _ = std::fs::remove_dir(&dir);
}
