//! S02: the parallel parts of the compiler (module/parallel.rs, source/collector.rs), every schedule.
//!
//! The real code runs with `rayon` and `std::sync` replaced by a scheduler: each spawned job is a
//! thread with its own stack, every operation on an atomic, a lock or the backend is a place where
//! another thread may go on, and which one does is a symbolic choice. A switch away from a thread that
//! could go on costs one of `preempt` preemptions; switches at a wait or at an end are free.
mod sx;
use llrl::path::Path;
use ::std::cell::{Cell, UnsafeCell};
use ::std::collections::{HashMap, HashSet};
use ::std::sync::Arc;

// ---------------------------------------------------------------- the scheduler
extern "C" { fn symx_spawn(f: extern "C" fn(*mut u8), a: *mut u8) -> u32; fn symx_switch(k: u32); }
struct Th { id: u32, done: bool, wait: Option<*const dyn Fn() -> bool>, scope: usize }
struct Sched { th: Vec<Th>, cur: usize, budget: u64, scopes: usize }
static mut SCHED: Option<Sched> = None;
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched { unsafe { SCHED.as_mut().unwrap() } }
fn start(budget: u64) { unsafe { SCHED = Some(Sched { th: vec![Th { id: 0, done: false, wait: None, scope: 0 }], cur: 0, budget, scopes: 0 }) } }
fn ready(t: &Th) -> bool { !t.done && t.wait.map(|w| unsafe { (*w)() }).unwrap_or(true) }
fn go(k: usize) { let s = sched(); s.cur = k; let id = s.th[k].id; unsafe { symx_switch(id) } }
/// another thread may go on here
pub fn point() {
    let s = sched();
    if s.budget == 0 { return }
    let me = s.cur;
    let c: Vec<usize> = (0..s.th.len()).filter(|k| *k != me && ready(&s.th[*k])).collect();
    if c.is_empty() { return }
    let k = sx::pick(c.len() + 1);
    if k > 0 { s.budget -= 1; go(c[k - 1]) }
}
fn leave() {
    let s = sched();
    let c: Vec<usize> = (0..s.th.len()).filter(|k| ready(&s.th[*k])).collect();
    sx::check(!c.is_empty(), c"no deadlock");
    let k = if c.len() == 1 { 0 } else { sx::pick(c.len()) };
    if c[k] != s.cur { go(c[k]) }
}
fn wait(w: &dyn Fn() -> bool) {
    let s = sched();
    let me = s.cur;
    s.th[me].wait = Some(unsafe { ::std::mem::transmute::<&dyn Fn() -> bool, &'static dyn Fn() -> bool>(w) });
    while !ready(&s.th[me]) { leave() }
    s.th[me].wait = None;
}
extern "C" fn body(p: *mut u8) {
    let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
    f();
    let s = sched();
    let me = s.cur;
    s.th[me].done = true;
    leave();
    unreachable!()
}
fn thread(scope: usize, f: Box<dyn FnOnce() + '_>) -> usize {
    let f: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(f) };
    let id = unsafe { symx_spawn(body, Box::into_raw(Box::new(f)) as *mut u8) };
    let s = sched();
    s.th.push(Th { id, done: false, wait: None, scope });
    let k = s.th.len() - 1;
    point();
    k
}

pub mod rayon {
    use super::*;
    pub struct Scope<'s> { k: usize, m: ::std::marker::PhantomData<Cell<&'s ()>> }
    unsafe impl<'s> Sync for Scope<'s> {}
    unsafe impl<'s> Send for Scope<'s> {}
    impl<'s> Scope<'s> {
        pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
            let k = self.k;
            thread(k, Box::new(move || f(&Scope { k, m: ::std::marker::PhantomData })));
        }
        pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) { self.spawn(f) }
    }
    pub fn scope<'s, R: Send, F: FnOnce(&Scope<'s>) -> R + Send>(f: F) -> R {
        let s = sched();
        s.scopes += 1;
        let k = s.scopes;
        let r = f(&Scope { k, m: ::std::marker::PhantomData });
        wait(&|| sched().th.iter().all(|t| t.scope != k || t.done));
        r
    }
    pub fn in_place_scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R {
        let s = sched();
        s.scopes += 1;
        let k = s.scopes;
        let r = f(&Scope { k, m: ::std::marker::PhantomData });
        wait(&|| sched().th.iter().all(|t| t.scope != k || t.done));
        r
    }
}
/// crossbeam's channels: unbounded ones, and bounded ones (0: the sender waits until it is taken)
pub mod crossbeam_channel {
    pub use ::crossbeam_channel::{RecvError, SendError, TryRecvError};
    use super::*;
    use ::std::collections::VecDeque;
    use ::std::rc::Rc;
    struct Ch<T> { q: UnsafeCell<VecDeque<T>>, cap: Option<usize>, taken: Cell<u64>, sent: Cell<u64>, tx: Cell<usize>, rx: Cell<usize> }
    pub struct Sender<T>(Rc<Ch<T>>);
    pub struct Receiver<T>(Rc<Ch<T>>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    impl<T> ::std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("sender") } }
    impl<T> ::std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("receiver") } }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.tx.set(self.0.tx.get() + 1); Sender(self.0.clone()) } }
    impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.rx.set(self.0.rx.get() + 1); Receiver(self.0.clone()) } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { point(); self.0.tx.set(self.0.tx.get() - 1); } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { point(); self.0.rx.set(self.0.rx.get() - 1); } }
    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let c = Rc::new(Ch { q: UnsafeCell::new(VecDeque::new()), cap, taken: Cell::new(0), sent: Cell::new(0), tx: Cell::new(1), rx: Cell::new(1) });
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { make(None) }
    pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) { make(Some(n)) }
    impl<T> Ch<T> { #[allow(clippy::mut_from_ref)] fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } } }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            point();
            let c = &self.0;
            if let Some(n) = c.cap { if n > 0 { wait(&|| c.rx.get() == 0 || c.q().len() < n); } }
            if c.rx.get() == 0 { return Err(SendError(v)) }
            c.q().push_back(v);
            let k = c.sent.get(); c.sent.set(k + 1);
            if c.cap == Some(0) {
                wait(&|| c.rx.get() == 0 || c.taken.get() > k);
                if c.taken.get() <= k { return match c.q().pop_back() { Some(v) => Err(SendError(v)), None => Ok(()) } }
            }
            Ok(())
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            point();
            let c = &self.0;
            match c.q().pop_front() {
                Some(v) => { c.taken.set(c.taken.get() + 1); Ok(v) }
                None if c.tx.get() == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            point();
            let c = &self.0;
            wait(&|| c.tx.get() == 0 || !c.q().is_empty());
            match c.q().pop_front() { Some(v) => { c.taken.set(c.taken.get() + 1); Ok(v) } None => Err(RecvError) }
        }
    }
}
pub mod std {
    pub use ::std::*;
    pub mod thread {
        pub use ::std::thread::*;
        use crate::{point, wait, sched, thread, Cell};
        use ::std::rc::Rc;
        pub struct JoinHandle<T> { k: usize, v: Rc<Cell<Option<T>>> }
        unsafe impl<T: Send> Send for JoinHandle<T> {}
        unsafe impl<T: Send> Sync for JoinHandle<T> {}
        impl<T> ::std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("handle") } }
        impl<T> JoinHandle<T> {
            pub fn join(self) -> Result<T> { let k = self.k; point(); wait(&|| sched().th[k].done); Ok(self.v.take().unwrap()) }
            pub fn is_finished(&self) -> bool { point(); sched().th[self.k].done }
        }
        pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
            let v = Rc::new(Cell::new(None));
            let w = v.clone();
            let k = thread(0, Box::new(move || w.set(Some(f()))));
            JoinHandle { k, v }
        }
        pub fn yield_now() { point() }
    }
    pub mod sync {
        pub use ::std::sync::*;
        use crate::{point, wait, Cell, UnsafeCell};
        use ::std::ops::{Deref, DerefMut};
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            use crate::point;
            macro_rules! atomic { ($n:ident $t:ty: $($x:tt)*) => {
                #[derive(Debug, Default)] pub struct $n(::std::sync::atomic::$n);
                #[allow(dead_code)] impl $n {
                    pub const fn new(x: $t) -> Self { Self(::std::sync::atomic::$n::new(x)) }
                    pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                    pub fn store(&self, x: $t, o: Ordering) { point(); self.0.store(x, o) }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t { point(); self.0.swap(x, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { point(); self.0.fetch_update(o, p, f) }
                    pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_and(x, o) }
                    pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_or(x, o) }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    atomic!(@ $t: $($x)*);
                } };
                (@ $t:ty: num) => {
                    pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_add(x, o) }
                    pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(x, o) }
                    pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_max(x, o) }
                    pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { point(); self.0.fetch_min(x, o) }
                };
                (@ $t:ty: bool) => {};
            }
            atomic!(AtomicU32 u32: num); atomic!(AtomicI32 i32: num); atomic!(AtomicU64 u64: num); atomic!(AtomicI64 i64: num);
            atomic!(AtomicUsize usize: num); atomic!(AtomicIsize isize: num); atomic!(AtomicBool bool: bool);
        }
        macro_rules! lock { ($n:ident: $($m:ident $try:ident $g:ident $d:expr, $free:expr, $mut:tt);*) => {
            pub struct $n<T: ?Sized> { s: Cell<i32>, v: UnsafeCell<T> }
            unsafe impl<T: ?Sized + Send> Sync for $n<T> {}
            unsafe impl<T: ?Sized + Send> Send for $n<T> {}
            impl<T> ::std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("lock") } }
            impl<T: Default> Default for $n<T> { fn default() -> Self { Self::new(T::default()) } }
            #[allow(dead_code)] impl<T> $n<T> {
                pub const fn new(v: T) -> Self { Self { s: Cell::new(0), v: UnsafeCell::new(v) } }
                pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
                pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
                $(pub fn $m(&self) -> LockResult<$g<'_, T>> { point(); let f: fn(i32) -> bool = $free; wait(&|| f(self.s.get())); self.s.set(self.s.get() + $d); Ok($g { l: self }) }
                pub fn $try(&self) -> TryLockResult<$g<'_, T>> { point(); let f: fn(i32) -> bool = $free; if f(self.s.get()) { self.s.set(self.s.get() + $d); Ok($g { l: self }) } else { Err(TryLockError::WouldBlock) } })*
            }
            $(pub struct $g<'a, T> { l: &'a $n<T> }
            unsafe impl<'a, T: Sync> Sync for $g<'a, T> {}
            impl<'a, T> Deref for $g<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
            impl<'a, T> Drop for $g<'a, T> { fn drop(&mut self) { self.l.s.set(self.l.s.get() - $d); } }
            lock!(@ $mut $g);)*
        };
            (@ mut $g:ident) => { impl<'a, T> DerefMut for $g<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } } };
            (@ no $g:ident) => {};
        }
        lock!(RwLock: read try_read RwLockReadGuard 1, |s| s >= 0, no; write try_write RwLockWriteGuard -1, |s| s == 0, mut);
        lock!(Mutex: lock try_lock MutexGuard -1, |s| s == 0, mut);
    }
}

/// what the real code sees of the rest of the compiler
pub mod root {
    pub use llrl::{path, preprocess, report, source, source_loc};
    pub mod ast {
        pub use llrl::ast::*;
        /// an initialization statement: here, a number
        #[derive(Debug, Clone, Copy)]
        pub enum InitExpr { Eval(u64), EnsureInitialized(ModuleId) }
        #[derive(Debug, Clone, Default)]
        pub struct Root { pub init_expressions: Vec<InitExpr> }
    }
    pub mod module {
        pub use llrl::module::{Error, ModuleId};
        pub use crate::built::Backend;
        pub use crate::{Module, External};
        pub type Result<T> = ::std::result::Result<T, Error>;
    }
}
// ---------------------------------------------------------------- building modules
pub use llrl::module::{Error, ModuleId};
pub mod built {
    include!(concat!(env!("OUT_DIR"), "/parallel.rs"));
}
/// stands for semantic analysis: what it looks at and whether it fails are the test's
#[derive(Debug, Clone)]
pub struct Module { mid: usize, path: Path, report: llrl::report::Report, ast_root: root::ast::Root }
#[derive(Default)]
struct World { fails: Vec<bool>, paths: Vec<Path>, deps: Vec<Vec<usize>>, started: Vec<u32>, added: Vec<u32>, ended: Vec<u32>, entry: Vec<bool>, macros: bool }
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World { unsafe { WORLD.as_mut().unwrap() } }
fn oops(mid: usize) -> Error { Error::MacroExpansionFailed(llrl::source_loc::SourceLocator::temporary().issue(Default::default()), format!("m{}", mid)) }
impl Module {
    pub fn build(mid: ModuleId, source: &llrl::source::Source, external: &impl External) -> ::std::result::Result<Self, Error> {
        point();
        let w = world();
        let i = mid.as_index();
        w.started[i] += 1;
        sx::check(w.started[i] == 1, c"a module is built once");
        sx::check(source.path == w.paths[i], c"with its own source");
        for d in &w.deps[i] {
            sx::check(w.started[*d] == 1 && w.ended[*d] == 1 && !w.fails[*d], c"after everything it imports was built");
            sx::check(w.added[*d] == 1, c"and given to the backend");
            sx::reach(2);
            let m = external.find_module(&w.paths[*d]);
            sx::check(m.map(|m| m.mid == *d && m.path == w.paths[*d]).unwrap_or(false), c"which it finds by its path");
            sx::check(external.module(ModuleId::from_index(*d)).mid == *d, c"and by its number");
        }
        sx::check(external.find_module(&at("none")).is_none(), c"and nothing else");
        point();
        let w = world();
        w.ended[i] += 1;
        if w.fails[i] { return Err(oops(i)) }
        let mut ast_root = root::ast::Root::default();
        if w.macros {
            let loc = llrl::source_loc::SourceLocator::temporary().issue(Default::default());
            for d in &w.deps[i] {
                let s = llrl::ast::builtin::SyntaxBody::pack(llrl::ast::builtin::Sexp::Integer(false, i as u64), loc);
                match external.execute_macro(llrl::ast::NodeId::new_unchecked(ModuleId::from_index(*d), 7), &s) {
                    Ok(s) => { let k = <llrl::ast::builtin::Sexp as llrl::ast::builtin::SyntaxBody>::unpack(s).1; sx::check(i % 2 == 0 && matches!(k, llrl::ast::builtin::Sexp::Integer(_, k) if k == (1000 + *d as u64) * 100 + i as u64), c"a macro gives what it was asked for"); }
                    Err(e) => sx::check(i % 2 == 1 && e == format!("no {}", 1000 + *d), c"or its own error"),
                }
                ast_root.init_expressions.push(root::ast::InitExpr::EnsureInitialized(ModuleId::from_index(*d)));
            }
            for k in 0..2 { ast_root.init_expressions.push(root::ast::InitExpr::Eval(i as u64 * 10 + k)); }
        }
        Ok(Module { mid: i, path: source.path.clone(), report: llrl::report::Report::new(), ast_root })
    }
    pub fn path(&self) -> &Path { &self.path }
    pub fn ast_root(&self) -> &root::ast::Root { &self.ast_root }
    pub fn id(&self) -> ModuleId { ModuleId::from_index(self.mid) }
    pub fn report(&self) -> &llrl::report::Report { &self.report }
}
pub trait External {
    fn module(&self, mid: ModuleId) -> &Module;
    fn find_module(&self, path: &Path) -> Option<&Module>;
    fn execute_macro(&self, id: llrl::ast::NodeId<llrl::ast::Macro>, s: &llrl::ast::builtin::Syntax<llrl::ast::builtin::Sexp>) -> ::std::result::Result<llrl::ast::builtin::Syntax<llrl::ast::builtin::Sexp>, String>;
}
struct Back;
impl built::Backend for Back {
    fn add_module(&self, m: Arc<Module>, entry: bool) {
        point();
        let w = world();
        w.added[m.mid] += 1;
        sx::check(w.added[m.mid] == 1, c"the backend gets a module once");
        sx::check(!w.fails[m.mid] && w.ended[m.mid] == 1, c"after it was built");
        sx::check(entry == w.entry[m.mid], c"and whether it is an entry point");
        for d in &w.deps[m.mid] { sx::check(w.added[*d] == 1, c"after what it imports"); }
        point();
    }
    fn execute_macro(&self, _: llrl::ast::NodeId<llrl::ast::Macro>, _: &llrl::ast::builtin::Syntax<llrl::ast::builtin::Sexp>) -> ::std::result::Result<llrl::ast::builtin::Syntax<llrl::ast::builtin::Sexp>, String> { Err(String::new()) }
}
fn at(s: &str) -> Path { format!("~/{}", s).parse::<Path>().unwrap() }
fn source(path: &Path, deps: Vec<Path>) -> llrl::source::Source {
    let mut s = llrl::source::Source::empty(path.clone());
    s.implicit_std = false;
    for d in deps { s.dependencies.insert(d.to_string(), d); }
    s
}
/// the builtin module and n others, each importing any of the ones before it; any of them may fail
#[no_mangle]
pub extern "C" fn h_build(n: u64, preempt: u64, fails: u64) {
    let n = n as usize + 1;
    start(preempt);
    let mut w = World { fails: vec![false; n], paths: vec![Path::builtin()], deps: vec![vec![]; n], started: vec![0; n], added: vec![0; n], ended: vec![0; n], entry: vec![false; n], macros: false };
    let mut sources = vec![source(&w.paths[0], vec![])];
    for i in 1..n {
        w.paths.push(at(["", "a", "b", "c", "d", "e"][i]));
        w.deps[i].push(0);
        let mut deps = vec![w.paths[0].clone()];
        let mut again = vec![];
        for j in 1..i {
            let k = sx::pick(if fails & 4 != 0 { 3 } else { 2 });
            if k > 0 { w.deps[i].push(j); deps.push(w.paths[j].clone()); }
            if k > 1 { again.push(w.paths[j].clone()) }
        }
        w.entry[i] = i == n - 1;
        let mut s = source(&w.paths[i], deps);
        // a dependency may have two names
        for d in again { s.dependencies.insert(format!("{}/again", d), d); }
        if fails & 4 != 0 && sx::pick(2) == 1 { s.dependencies.insert("zz".into(), Path::builtin()); }
        sources.push(s);
    }
    for i in 0..n { w.fails[i] = (fails & 1) != 0 && i > 0 && i < n - 1 && sx::pick(2) == 1; }
    if fails & 2 != 0 { w.fails[0] = true; }
    let entries: HashSet<Path> = w.paths[n - 1..].iter().cloned().collect();
    let mut ok = vec![true; n];
    for i in 0..n { ok[i] = w.deps[i].iter().all(|d| ok[*d] && !w.fails[*d]); }
    unsafe { WORLD = Some(w) }
    let mut report = llrl::report::Report::new();
    let (good, bad) = built::build(sources, entries, &Back, &mut report);
    let w = world();
    let mut seen = vec![0; n];
    for m in &good {
        seen[m.mid] += 1;
        sx::check(ok[m.mid] && !w.fails[m.mid], c"only modules that were built are returned as built");
        sx::check(m.path == w.paths[m.mid] && w.added[m.mid] == 1, c"and the backend has them");
    }
    for (s, e) in &bad {
        let i = w.paths.iter().position(|p| *p == s.path).unwrap();
        seen[i] += 1;
        sx::check(!ok[i] || w.fails[i], c"only modules that were not built are returned as failed");
        match e {
            Error::DependentModuleBuildFailed => sx::check(!ok[i], c"for an import that failed"),
            Error::MacroExpansionFailed(_, s) => sx::check(ok[i] && *s == format!("m{}", i), c"or with its own error"),
            _ => sx::check(false, c"or with its own error"),
        }
    }
    for i in 0..n {
        sx::check(seen[i] == 1, c"every module is returned once");
        sx::check(w.started[i] == ok[i] as u32, c"and built when all its imports were");
    }
    sx::observe(1, good.len() as u64);
    sx::reach(1);
}

// ---------------------------------------------------------------- collecting sources
pub mod collected {
    pub use super::Loader;
    pub use llrl::source::{Error, Source, SourceSet};
    pub mod real { include!(concat!(env!("OUT_DIR"), "/collector.rs")); }
}
pub struct LoadError { pub path: Path, pub error: llrl::source::Error }
pub struct Loader;
static mut LOADED: Vec<u32> = Vec::new();
#[allow(static_mut_refs)]
impl Loader {
    pub fn load(&self, path: Path, _locator: &mut llrl::source_loc::SourceLocator) -> ::std::result::Result<llrl::source::Source, Box<LoadError>> {
        point();
        let w = world();
        let i = w.paths.iter().position(|p| *p == path);
        sx::check(i.is_some(), c"only what is imported is loaded");
        let i = i.unwrap();
        unsafe { LOADED[i] += 1; sx::check(LOADED[i] == 1, c"a source is loaded once"); }
        if w.fails[i] { return Err(Box::new(LoadError { path, error: llrl::source::Error::ModuleNotFound })) }
        Ok(source(&path, w.deps[i].iter().map(|d| w.paths[*d].clone()).collect()))
    }
}
/// n modules that import any others (themselves excepted); the first `k` are asked for
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn h_collect(n: u64, preempt: u64, k: u64) {
    let (n, k) = (n as usize, k as usize);
    start(preempt);
    let mut w = World { fails: vec![false; n], deps: vec![vec![]; n], ..Default::default() };
    for i in 0..n {
        w.paths.push(at(["a", "b", "c", "d", "e"][i]));
        w.fails[i] = i == n - 1 && sx::pick(2) == 1;
        for j in 0..n { if j != i && !w.fails[i] && sx::pick(2) == 1 { w.deps[i].push(j); } }
    }
    unsafe { LOADED = vec![0; n]; WORLD = Some(w) }
    let w = world();
    let mut want = vec![false; n];
    for i in 0..k { want[i] = true; }
    for _ in 0..n { for i in 0..n { if want[i] { for d in w.deps[i].clone() { want[d] = true; } } } }
    let mut table = llrl::source_loc::SourceLocationTable::new();
    let inputs: Vec<Path> = w.paths[..k].to_vec();
    let pp = llrl::preprocess::Preprocessor::new();
    let mut report = llrl::report::Report::new();
    let set = collected::real::collect(inputs.iter(), &Loader, &mut table, &pp, &mut report);
    let mut seen = vec![0; n];
    for s in set.sources() {
        let i = w.paths.iter().position(|p| *p == s.path).unwrap();
        seen[i] += 1;
        sx::check(s.errors.is_empty() != w.fails[i], c"a source that could not be loaded is there with its error");
        if !w.fails[i] { sx::check(s.dependencies.len() == w.deps[i].len(), c"with what it imports"); }
    }
    for i in 0..n { sx::check(seen[i] == want[i] as u32, c"the sources are the ones that were asked for or are imported by them"); }
    // the order they are built in
    let mut reach: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| w.deps[i].contains(&j)).collect()).collect();
    for k in 0..n { for i in 0..n { for j in 0..n { if reach[i][k] && reach[k][j] { reach[i][j] = true; } } } }
    let cyclic = (0..n).any(|i| want[i] && reach[i][i]);
    match set.resolve_dependencies_order() {
        Ok(order) => {
            sx::check(!cyclic, c"a cycle of imports is reported");
            let at: Vec<usize> = order.iter().map(|s| w.paths.iter().position(|p| *p == s.path).unwrap()).collect();
            sx::check(at.len() == want.iter().filter(|x| **x).count(), c"every source is ordered");
            for (k, i) in at.iter().enumerate() { for d in &w.deps[*i] { sx::check(at[..k].contains(d), c"after what it imports"); } }
        }
        Err(ps) => {
            sx::check(cyclic, c"only a cycle of imports is reported");
            let at: Vec<usize> = ps.iter().map(|q| w.paths.iter().position(|p| p == q).unwrap()).collect();
            for i in &at { for j in &at { sx::check(reach[*i][*j], c"the sources reported are on a cycle"); } }
            sx::check(!at.is_empty(), c"which is named");
            sx::reach(2);
        }
    }
    sx::reach(1);
}

// ---------------------------------------------------------------- lowering and macros
pub mod low {
    use super::*;
    use super::root::ast::InitExpr;
    pub mod context { pub use super::Context; }
    pub mod translator { pub use super::Translate; }
    pub mod ir {
        pub use llrl::lowering::ir::{CtId, CtIdGen, Sexp, Syntax, SyntaxBody};
        /// a definition, and the statement, of what has this number
        #[derive(Debug, Clone)] pub struct Def(pub u64);
        #[derive(Debug, Clone)] pub struct Init(pub u64);
        pub mod traverser { pub trait Traverse {} impl<T> Traverse for T {} }
        pub mod rewriter { pub trait Rewrite {} impl<T> Rewrite for T {} }
    }
    pub struct Ct(ir::CtId);
    impl Ct { pub fn id(&self) -> ir::CtId { self.0 } }
    pub trait Translate { type Dest; fn make(&self, ctx: &mut Context, set: &HashMap<ModuleId, Arc<Module>>) -> Self::Dest; }
    impl<T: Translate> Translate for &T { type Dest = T::Dest; fn make(&self, ctx: &mut Context, set: &HashMap<ModuleId, Arc<Module>>) -> T::Dest { (**self).make(ctx, set) } }
    fn all_there(set: &HashMap<ModuleId, Arc<Module>>, m: usize) {
        sx::check(set.contains_key(&ModuleId::from_index(m)), c"what is lowered is known");
        for d in &world().deps[m] { all_there(set, *d) }
    }
    impl Translate for llrl::ast::NodeId<llrl::ast::Macro> {
        type Dest = Ct;
        fn make(&self, ctx: &mut Context, set: &HashMap<ModuleId, Arc<Module>>) -> Ct {
            let m = self.module().as_index();
            all_there(set, m);
            Ct(ctx.def(1000 + m as u64))
        }
    }
    impl Translate for InitExpr {
        type Dest = Option<ir::Init>;
        fn make(&self, ctx: &mut Context, set: &HashMap<ModuleId, Arc<Module>>) -> Option<ir::Init> {
            match self {
                InitExpr::Eval(k) => { all_there(set, (*k / 10) as usize); ctx.def(*k); Some(ir::Init(*k)) }
                InitExpr::EnsureInitialized(_) => None,
            }
        }
    }
    /// gives everything one definition, once
    pub struct Context { gen: ir::CtIdGen, defs: Vec<(ir::CtId, Arc<ir::Def>)>, new: usize }
    impl Context {
        pub fn new() -> Self { Context { gen: ir::CtIdGen::new(), defs: vec![], new: 0 } }
        fn def(&mut self, k: u64) -> ir::CtId {
            if let Some(d) = self.defs.iter().find(|d| d.1.0 == k) { return d.0 }
            let id = self.gen.next();
            self.defs.push((id, Arc::new(ir::Def(k))));
            id
        }
        pub fn populate<T: Translate>(&mut self, src: &T, set: &HashMap<ModuleId, Arc<Module>>) -> (T::Dest, impl Iterator<Item = (ir::CtId, &Arc<ir::Def>)>) {
            let r = src.make(self, set);
            let from = self.new;
            self.new = self.defs.len();
            (r, self.defs[from..].iter().map(|d| (d.0, &d.1)))
        }
    }
    pub mod real { #[allow(unused_imports)] use super::{context, ir, translator}; include!(concat!(env!("OUT_DIR"), "/lowering.rs")); }
    pub use real::{Backend, Lowerizer};

    /// notes what it is given
    pub struct Sink { pub defs: Vec<(ir::CtId, u64)>, pub mains: Vec<u64>, pub asked: Vec<u64>, pub completed: bool }
    impl Backend for Sink {
        fn put_def(&mut self, id: ir::CtId, def: Arc<ir::Def>) {
            point();
            sx::check(self.defs.iter().all(|d| d.0 != id && d.1 != def.0), c"a definition is given to the backend once");
            self.defs.push((id, def.0));
        }
        fn put_main(&mut self, init: ir::Init) {
            sx::check(self.defs.iter().any(|d| d.1 == init.0), c"a statement comes after its definitions");
            self.mains.push(init.0);
        }
        fn execute_macro(&mut self, id: ir::CtId, s: ir::Syntax<ir::Sexp>) -> Result<ir::Syntax<ir::Sexp>, String> {
            point();
            let m = match self.defs.iter().find(|d| d.0 == id) { Some(d) => d.1, None => { sx::check(false, c"a macro is defined before it is run"); 0 } };
            let (meta, body) = <ir::Sexp as ir::SyntaxBody>::unpack(s);
            self.asked.push(m);
            match body {
                ir::Sexp::Integer(_, k) if k % 2 == 0 => Ok(ir::SyntaxBody::pack(ir::Sexp::Integer(false, m * 100 + k), meta)),
                _ => Err(format!("no {}", m)),
            }
        }
        fn complete(self, _: &mut llrl::report::Report) {}
    }
}
/// as h_build with the real lowering thread: modules use macros of what they import, and the last
/// `entries` of them are entry points
#[no_mangle]
pub extern "C" fn h_lower(n: u64, preempt: u64, entries: u64) {
    let n = n as usize + 1;
    start(preempt);
    let mut w = World { fails: vec![false; n], paths: vec![Path::builtin()], deps: vec![vec![]; n], started: vec![0; n], added: vec![1; n], ended: vec![0; n], entry: vec![false; n], macros: true };
    let mut sources = vec![source(&w.paths[0], vec![])];
    for i in 1..n {
        w.paths.push(at(["", "a", "b", "c", "d", "e"][i]));
        w.deps[i].push(0);
        let mut deps = vec![w.paths[0].clone()];
        for j in 1..i { if sx::pick(2) == 1 { w.deps[i].push(j); deps.push(w.paths[j].clone()); } }
        w.entry[i] = i >= n - entries as usize;
        sources.push(source(&w.paths[i], deps));
    }
    let es: HashSet<Path> = (0..n).filter(|i| w.entry[*i]).map(|i| w.paths[i].clone()).collect();
    unsafe { WORLD = Some(w) }
    let w = world();
    let mut report = llrl::report::Report::new();
    let low = low::Lowerizer::new(low::Sink { defs: vec![], mains: vec![], asked: vec![], completed: false });
    let (good, bad) = built::build(sources, es, &low, &mut report);
    sx::check(good.len() == n && bad.is_empty(), c"everything is built");
    let sink = low.complete(&mut report);
    // what the entry points need
    let mut need = w.entry.clone();
    for i in (0..n).rev() { if need[i] { for d in w.deps[i].clone() { need[d] = true; } } }
    for i in 0..n {
        let at = |k: u64| sink.mains.iter().position(|m| *m == k);
        let (a, b) = (at(i as u64 * 10), at(i as u64 * 10 + 1));
        sx::check(a.is_some() == need[i] && b.is_some() == need[i], c"the statements of what the entry points import, and no others");
        if need[i] {
            sx::check(a < b, c"in order");
            for d in &w.deps[i] { sx::check(at(*d as u64 * 10 + 1) < a, c"after those of what it imports"); }
            sx::reach(2);
        }
    }
    sx::check(sink.mains.len() == 2 * need.iter().filter(|x| **x).count(), c"each once");
    sx::check(sink.asked.len() == (1..n).map(|i| w.deps[i].len()).sum::<usize>(), c"macros are run as often as they are used");
    sx::reach(1);
}
fn main() {
    let a: Vec<String> = ::std::env::args().collect();
    let g = |i: usize| a.get(i + 2).map(|x| x.parse().unwrap()).unwrap_or(0u64);
    match a[1].as_str() {
        "h_build" => h_build(g(0), g(1), g(2)),
        "h_collect" => h_collect(g(0), g(1), g(2)),
        "h_lower" => h_lower(g(0), g(1), g(2)),
        x => { eprintln!("unknown entry {}", x); ::std::process::exit(97); }
    }
}
