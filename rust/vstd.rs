// What the executable part of /repo/Splinter/src needs of vstd, without ghost state, and with threads, locks, condition variables
// and atomics that a seeded scheduler controls. Proof and specification code is erased by the verus! macro itself.
#![allow(unused, non_snake_case, non_camel_case_types)]
extern crate self as vstd;
pub mod prelude {
    pub use verus_builtin::*; pub use verus_builtin_macros::*; pub use verus_state_machines_macros::*;
    pub use crate::pervasive::*; pub use crate::view::*; pub use crate::map::Map; pub use crate::seq::Seq; pub use crate::set::Set; pub use crate::multiset::Multiset; pub use crate::tokens::*; pub use crate::std_specs::vec::VecSet;
}
pub mod view { pub trait View { type V; } pub trait DeepView { type V; }
    macro_rules! v { ($($t:ty),*) => { $(impl View for $t { type V = $t; } impl DeepView for $t { type V = $t; })* } } v!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, char, ());
    impl<T> View for Vec<T> { type V = crate::seq::Seq<T>; } impl<T> View for [T] { type V = crate::seq::Seq<T>; } impl<T> View for Option<T> { type V = Option<T>; } impl<T, const N: usize> View for [T; N] { type V = crate::seq::Seq<T>; } impl<'a, T: View + ?Sized> View for &'a T { type V = T::V; } impl<T: View + ?Sized> View for Box<T> { type V = T::V; } impl<T: View + ?Sized> View for std::sync::Arc<T> { type V = T::V; } }
macro_rules! ghost { ($n:ident, $($p:ident),*) => { pub struct $n<$($p),*>(std::marker::PhantomData<($($p,)*)>); impl<$($p),*> Clone for $n<$($p),*> { fn clone(&self) -> Self { $n(std::marker::PhantomData) } } impl<$($p),*> Copy for $n<$($p),*> {} } }
pub mod map { ghost!(Map, K, V); pub mod axioms {} } pub mod imap { } pub mod map_lib {} pub mod seq { #[derive(Clone, Debug, PartialEq)] pub struct Seq<A> { pub v: Vec<A> } } pub mod seq_lib {} pub mod set { ghost!(Set, A); } pub mod set_lib {} pub mod multiset { ghost!(Multiset, A); } pub mod multiset_lib {}
pub mod pervasive {
    #[track_caller] pub fn unreached<A>() -> A { panic!("unreached code was reached") }
    pub fn print_u64(i: u64) { crate::simcore::emit(&format!("{}\n", i)) }
    #[track_caller] pub fn runtime_assert(b: bool) { if !b { panic!("runtime assertion failed") } }
    #[track_caller] pub fn arbitrary<A>() -> A { panic!("an arbitrary value was used by executable code") }
    pub fn affirm(_b: bool) {}
    pub trait VecAdditionalExecFns<T> {} 
}
pub mod modes {} pub mod math {} pub mod arithmetic { pub mod mul {} pub mod div_mod {} pub mod power2 {} pub mod power {} pub mod logarithm {} }
pub mod bytes {
    macro_rules! b { ($($t:ident $n:literal $to:ident $from:ident;)*) => { $(pub fn $to(x: $t) -> Vec<u8> { x.to_le_bytes().to_vec() } #[track_caller] pub fn $from(s: &[u8]) -> $t { assert!(s.len() == $n, "requires |s| == {}", $n); let mut a = [0u8; $n]; a.copy_from_slice(s); $t::from_le_bytes(a) })* } }
    b! { u16 2 u16_to_le_bytes u16_from_le_bytes; u32 4 u32_to_le_bytes u32_from_le_bytes; u64 8 u64_to_le_bytes u64_from_le_bytes; u128 16 u128_to_le_bytes u128_from_le_bytes; }
}
pub mod slice {
    #[track_caller] pub fn slice_subrange<T>(s: &[T], i: usize, j: usize) -> &[T] { &s[i..j] }
    #[track_caller] pub fn slice_index_get<T>(s: &[T], i: usize) -> &T { &s[i] }
    pub fn slice_to_vec<T: Copy>(s: &[T]) -> Vec<T> { s.to_vec() }
    pub trait SliceAdditionalExecFns<T> { fn set(&mut self, i: usize, t: T); } impl<T> SliceAdditionalExecFns<T> for [T] { #[track_caller] fn set(&mut self, i: usize, t: T) { self[i] = t; } }
}
pub mod array { pub fn array_as_slice<T, const N: usize>(a: &[T; N]) -> &[T] { a } }
pub mod relations {} pub mod calc_macro { #[macro_export] macro_rules! calc { ($($t:tt)*) => {}; } } pub mod raw_ptr {} pub mod layout {} pub mod cell {} pub mod string {} pub mod function {} pub mod assert_by_contradiction {} pub mod invariant {} pub mod thread { pub use crate::simthread::*; } pub mod predicate {} pub mod compute {} pub mod logatom {} pub mod pcm {} pub mod contrib {}
pub mod tokens {
    #[derive(Clone, Copy)] pub struct InstanceId;
    pub struct Loc;
    pub trait UniqueValueToken<V> {} pub trait ValueToken<V> {} pub trait KeyValueToken<K, V> {} pub trait UniqueKeyValueToken<K, V> {} pub trait UniqueElementToken<E> {} pub trait ElementToken<E> {} pub trait SimpleToken {} pub trait UniqueSimpleToken {} pub trait MonotonicCountToken {} pub trait CountToken {}
    ghost!(MapToken, K, V, T); ghost!(SetToken, E, T); ghost!(MultisetToken, E, T);
}
pub mod hash_map { pub use std::collections::HashMap as HashMapWithView; pub use std::collections::HashMap as StringHashMap; }
pub mod hash_set { pub use std::collections::HashSet as HashSetWithView; }
pub mod std_specs { pub mod hash {} pub mod vec { pub trait VecSet<T> { fn set(&mut self, i: usize, t: T); fn set_and_swap(&mut self, i: usize, t: &mut T); } impl<T> VecSet<T> for Vec<T> { #[track_caller] fn set(&mut self, i: usize, t: T) { self[i] = t; } #[track_caller] fn set_and_swap(&mut self, i: usize, t: &mut T) { std::mem::swap(&mut self[i], t); } } } pub mod option {} pub mod result {} pub mod clone {} pub mod num {} pub mod bits {} pub mod cmp {} pub mod control_flow {} pub mod slice {} pub mod smart_ptrs {} pub mod atomic {} pub mod range {} pub mod vecdeque {} }
pub mod state_machine_internal { pub struct SyncSendIfSyncSend<T>(std::marker::PhantomData<T>); impl<T> Clone for SyncSendIfSyncSend<T> { fn clone(&self) -> Self { Self(std::marker::PhantomData) } } impl<T> Copy for SyncSendIfSyncSend<T> {} pub struct NoCopy; }

// ---------------------------------------------------------------- the scheduler
// One thread holds the baton. At every yield point (before a lock, an atomic operation or a spawn; after a release) the plan may
// pass it to another runnable thread; a thread that must wait passes it on. Nothing else decides the order of execution.
pub mod simcore {
    use std::cell::Cell; use std::collections::BTreeMap; use std::sync::{Condvar, Mutex, MutexGuard}; use std::panic::resume_unwind;
    pub struct Abort;
    struct Th { blocked: Option<usize>, done: bool }
    pub struct St { pub on: bool, cur: usize, th: Vec<Th>, pub n: u64, pub plan: BTreeMap<u64, u64>, pub lim: u64, pub abort: Option<String>, pub hash: u64, pub switches: u64, pub waits: u64, pub panics: Vec<String>, pub out: String, pub clock: u64, os: Vec<std::thread::JoinHandle<()>>, pub sched: u64 }
    static S: Mutex<St> = Mutex::new(St { on: false, cur: 0, th: Vec::new(), n: 0, plan: BTreeMap::new(), lim: 0, abort: None, hash: 0, switches: 0, waits: 0, panics: Vec::new(), out: String::new(), clock: 0, os: Vec::new(), sched: 0 });
    static CV: Condvar = Condvar::new();
    thread_local! { static ME: Cell<usize> = Cell::new(0); }
    pub fn st() -> MutexGuard<'static, St> { S.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn me() -> usize { ME.with(|m| m.get()) }
    pub fn mix(h: u64, x: u64) -> u64 { let mut z = (h ^ x.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn emit(t: &str) { st().out.push_str(t); }
    pub fn start(plan: BTreeMap<u64, u64>, lim: u64) {
        std::panic::set_hook(Box::new(|i| { let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or("panic".to_string()); let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default(); st().panics.push(format!("{} at {}", m, l)); }));
        let mut s = st(); s.on = true; s.cur = 0; s.th = vec![Th { blocked: None, done: false }]; s.n = 0; s.plan = plan; s.lim = lim; s.abort = None; s.hash = 7; ME.with(|m| m.set(0));
    }
    // ends the simulation: every other thread must have finished or is unwound
    pub fn finish() {
        let os; { let mut s = st(); if s.th.iter().skip(1).any(|t| !t.done) && s.abort.is_none() { s.abort = Some("the main thread ended while other threads were running".into()); } s.th[0].done = true; os = std::mem::take(&mut s.os); CV.notify_all(); }
        for h in os { let _ = h.join(); } st().on = false;
    }
    fn die() -> ! { resume_unwind(Box::new(Abort)) }
    fn wait_turn(mut s: MutexGuard<'static, St>, me: usize) { while s.on && s.abort.is_none() && s.cur != me { s = CV.wait(s).unwrap_or_else(|e| e.into_inner()); } if s.abort.is_some() { drop(s); if !std::thread::panicking() { die() } } }
    fn runnable(s: &St) -> Vec<usize> { (0..s.th.len()).filter(|i| !s.th[*i].done && s.th[*i].blocked.is_none()).collect() }
    pub fn yp(kind: u64) {
        if std::thread::panicking() { return; }
        let mut s = st(); if !s.on { return; } let m = me(); if s.abort.is_some() { drop(s); die() }
        s.n += 1; let h = s.hash; s.hash = mix(h, m as u64 * 64 + kind); if s.n > s.lim { s.abort = Some(format!("no end within {} scheduling steps", s.lim)); CV.notify_all(); drop(s); die() }
        let n = s.n; if let Some(t) = s.plan.get(&n).cloned() { let r = runnable(&s); let to = r[(t % r.len() as u64) as usize]; if to != m { s.cur = to; s.switches += 1; let q = s.sched; s.sched = mix(q, n * 31 + to as u64); CV.notify_all(); wait_turn(s, m); } }
    }
    // the calling thread cannot go on before wake(res)
    pub fn block(res: usize) {
        let mut s = st(); let m = me(); if !s.on { drop(s); panic!("the only thread waits for itself"); } if s.abort.is_some() { drop(s); die() }
        s.waits += 1; s.th[m].blocked = Some(res); pass(&mut s, m); wait_turn(s, m);
    }
    fn pass(s: &mut St, m: usize) {
        let r = runnable(s); if r.is_empty() { if s.th.iter().any(|t| !t.done) && s.abort.is_none() { let w: Vec<String> = (0..s.th.len()).filter(|i| !s.th[*i].done).map(|i| format!("thread {}", i)).collect(); s.abort = Some(format!("deadlock: {} wait for each other", w.join(", "))); } }
        else { s.cur = *r.iter().find(|i| **i > m).unwrap_or(&r[0]); let (q, c) = (s.sched, s.cur); s.sched = mix(q, 7777 + c as u64); } CV.notify_all();
    }
    pub fn wake(res: usize) { let mut s = st(); for t in s.th.iter_mut() { if t.blocked == Some(res) { t.blocked = None; } } }
    pub fn wake_one(res: usize) { let mut s = st(); if let Some(t) = s.th.iter_mut().find(|t| t.blocked == Some(res)) { t.blocked = None; } }
    pub const JOIN: usize = 1 << 60;
    pub fn spawn_thread<T: Send + 'static>(f: Box<dyn FnOnce() -> T + Send>) -> (usize, std::sync::Arc<Mutex<Option<std::thread::Result<T>>>>) {
        yp(1); let slot = std::sync::Arc::new(Mutex::new(None)); let sl = slot.clone(); let mut s = st(); let id = s.th.len(); s.th.push(Th { blocked: None, done: false });
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { ME.with(|m| m.set(id)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { wait_turn(st(), id); f() })); *sl.lock().unwrap() = Some(r); let mut s = st(); s.th[id].done = true; for t in s.th.iter_mut() { if t.blocked == Some(JOIN + id) { t.blocked = None; } } pass(&mut s, id); }).unwrap();
        s.os.push(h); (id, slot)
    }
    pub fn is_done(id: usize) -> bool { st().th[id].done }
}
// A run: scenario text in ("knob NAME VALUE" lines, then events), encoded result out (see sim/runner.cpp).
pub mod simrt {
    use crate::simcore as c; use std::collections::BTreeMap;
    pub struct Ctx { pub knobs: BTreeMap<String, i64>, pub events: Vec<Vec<String>>, pub viol: Vec<(String, String)>, pub ctr: BTreeMap<String, u64>, pub states: Vec<u64>, pub trace: u64, pub shape: u64, pub secs: f64, pub log: bool }
    impl Ctx {
        pub fn parse(t: &str) -> Ctx { let mut x = Ctx { knobs: BTreeMap::new(), events: vec![], viol: vec![], ctr: BTreeMap::new(), states: vec![], trace: 1, shape: 1, secs: 0.0, log: std::env::var("SIM_TRACE").is_ok() };
            for l in t.lines() { let w: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect(); if w.is_empty() || w[0].starts_with('#') { continue; } if w[0] == "knob" && w.len() > 2 { x.knobs.insert(w[1].clone(), w[2].parse().unwrap_or(0)); } else { x.events.push(w); } } x }
        pub fn knob(&self, n: &str, d: i64) -> i64 { *self.knobs.get(n).unwrap_or(&d) }
        pub fn bad(&mut self, props: &str, m: String) { for p in props.split(',') { if !self.viol.iter().any(|v| v.0 == p) { self.viol.push((p.to_string(), m.clone())); } } }
        pub fn add(&mut self, k: &str, n: u64) { *self.ctr.entry(k.to_string()).or_insert(0) += n; }
        pub fn note(&mut self, s: &str) { if self.log { eprintln!("{}", s); } let mut h = self.trace; for b in s.bytes() { h = c::mix(h, b as u64); } self.trace = h; }
        pub fn kind(&mut self, k: u64) { self.shape = c::mix(self.shape, k); }
        pub fn enc(&self) -> String { let mut o = String::new(); let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n"); for (p, m) in &self.viol { o += &format!("V {} {}\n", p, esc(m)); } for (k, n) in &self.ctr { o += &format!("C {} {}\n", n, k); } o += &format!("T {} {} {}\n", self.trace, self.shape, self.secs); if !self.states.is_empty() { o.push('S'); for s in &self.states { o += &format!(" {}", s); } o.push('\n'); } o += ".\n"; o }
    }
    pub fn word(e: &[String], i: usize) -> u64 { e.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) }
    pub unsafe fn entry(t: *const u8, n: usize, out: extern "C" fn(*const u8, usize), f: fn(&mut Ctx)) { let s = String::from_utf8_lossy(std::slice::from_raw_parts(t, n)).to_string(); let mut x = Ctx::parse(&s); f(&mut x); let o = x.enc(); out(o.as_ptr(), o.len()); }
}
pub mod simthread {
    use crate::simcore as c; pub use std::thread::{Result, panicking};
    pub struct JoinHandle<T> { id: usize, slot: std::sync::Arc<std::sync::Mutex<Option<std::thread::Result<T>>>> }
    impl<T> JoinHandle<T> { pub fn join(self) -> std::thread::Result<T> { c::yp(2); while !c::is_done(self.id) { c::block(c::JOIN + self.id); } self.slot.lock().unwrap().take().unwrap() } pub fn is_finished(&self) -> bool { c::yp(2); c::is_done(self.id) } }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> { let (id, slot) = c::spawn_thread(Box::new(f)); JoinHandle { id, slot } }
    pub struct Builder; impl Builder { pub fn new() -> Self { Builder } pub fn name(self, _n: String) -> Self { self } pub fn stack_size(self, _n: usize) -> Self { self } pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> std::io::Result<JoinHandle<T>> { Ok(spawn(f)) } }
    pub fn yield_now() { c::yp(3) } pub fn sleep(d: std::time::Duration) { c::st().clock += d.as_nanos() as u64; c::yp(4) }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] pub struct ThreadId(usize); pub struct Thread(usize); impl Thread { pub fn id(&self) -> ThreadId { ThreadId(self.0) } } pub fn current() -> Thread { Thread(c::me()) }
    pub struct Scope<'s, 'e: 's>(std::marker::PhantomData<&'s mut &'e ()>, std::cell::RefCell<Vec<usize>>); pub struct ScopedJoinHandle<'s, T>(JoinHandle<T>, std::marker::PhantomData<&'s ()>); impl<'s, T> ScopedJoinHandle<'s, T> { pub fn join(self) -> std::thread::Result<T> { self.0.join() } }
    impl<'s, 'e> Scope<'s, 'e> { pub fn spawn<F: FnOnce() -> T + Send + 's, T: Send + 's>(&'s self, f: F) -> ScopedJoinHandle<'s, T> { let b: Box<dyn FnOnce() -> T + Send + 's> = Box::new(f); let (id, slot) = unsafe { let cell: std::sync::Arc<std::sync::Mutex<Option<std::thread::Result<T>>>> = Default::default(); let c2 = cell.clone(); let w: Box<dyn FnOnce() + Send + 's> = Box::new(move || { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)); let a = matches!(&r, Err(e) if e.is::<c::Abort>()); *c2.lock().unwrap() = Some(r); if a { std::panic::resume_unwind(Box::new(c::Abort)) } }); let w: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(w); let (id, _) = c::spawn_thread(w); (id, cell) }; self.1.borrow_mut().push(id); ScopedJoinHandle(JoinHandle { id, slot }, std::marker::PhantomData) } }
    unsafe impl<'s, 'e> Sync for Scope<'s, 'e> {}
    pub fn scope<'e, F, T>(f: F) -> T where F: for<'s> FnOnce(&'s Scope<'s, 'e>) -> T { let s = Scope(std::marker::PhantomData, Default::default()); let r = f(&s); let v = s.1.borrow().clone(); for id in v { while !c::is_done(id) { c::block(c::JOIN + id); } } r }
}
pub mod simsync {
    use crate::simcore as c; use std::cell::UnsafeCell; use std::ops::{Deref, DerefMut};
    pub use std::sync::{Arc, Weak, OnceLock, LockResult, TryLockError, TryLockResult, PoisonError, Once, LazyLock};
    // state: -1 held exclusively, n >= 0 shared holders
    pub struct Raw { s: UnsafeCell<i64> } unsafe impl Sync for Raw {} unsafe impl Send for Raw {}
    impl Raw {
        pub const fn new() -> Self { Raw { s: UnsafeCell::new(0) } } fn res(&self) -> usize { self.s.get() as usize } fn get(&self) -> i64 { unsafe { *self.s.get() } } fn set(&self, v: i64) { unsafe { *self.s.get() = v } }
        pub fn excl(&self, k: u64) { c::yp(k); while self.get() != 0 { c::block(self.res()); } self.set(-1); }
        pub fn shared(&self, k: u64) { c::yp(k); while self.get() < 0 { c::block(self.res()); } self.set(self.get() + 1); }
        pub fn try_excl(&self, k: u64) -> bool { c::yp(k); if self.get() != 0 { return false; } self.set(-1); true }
        pub fn try_shared(&self, k: u64) -> bool { c::yp(k); if self.get() < 0 { return false; } self.set(self.get() + 1); true }
        pub fn rel_excl(&self, k: u64) { self.set(0); c::wake(self.res()); c::yp(k); }
        pub fn rel_shared(&self, k: u64) { let v = self.get() - 1; self.set(v); if v == 0 { c::wake(self.res()); } c::yp(k); }
    }
    pub struct Mutex<T: ?Sized> { r: Raw, v: UnsafeCell<T> } unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {} unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }
    impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Mutex { r: Raw::new(), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) } }
    impl<T: ?Sized> Mutex<T> { pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { self.r.excl(5); Ok(MutexGuard { m: self }) } pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { if self.r.try_excl(5) { Ok(MutexGuard { m: self }) } else { Err(TryLockError::WouldBlock) } } pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) } }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } } impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } } impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> { fn drop(&mut self) { self.m.r.rel_excl(6) } }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    pub struct RwLock<T: ?Sized> { r: Raw, v: UnsafeCell<T> } unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {} unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>); pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock { r: Raw::new(), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) } }
    impl<T: ?Sized> RwLock<T> { pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { self.r.shared(7); Ok(RwLockReadGuard(self)) } pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { self.r.excl(8); Ok(RwLockWriteGuard(self)) } pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { if self.r.try_shared(7) { Ok(RwLockReadGuard(self)) } else { Err(TryLockError::WouldBlock) } } pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { if self.r.try_excl(8) { Ok(RwLockWriteGuard(self)) } else { Err(TryLockError::WouldBlock) } } pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) } }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } } impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } } impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
    impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { self.0.r.rel_shared(9) } } impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> { fn drop(&mut self) { self.0.r.rel_excl(10) } }
    pub struct Condvar { x: UnsafeCell<u8> } unsafe impl Sync for Condvar {} unsafe impl Send for Condvar {}
    impl Condvar { pub const fn new() -> Self { Condvar { x: UnsafeCell::new(0) } } pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { let m = g.m; m.r.set(0); c::wake(m.r.res()); std::mem::forget(g); c::block(self.x.get() as usize + (1 << 59)); while m.r.get() != 0 { c::block(m.r.res()); } m.r.set(-1); Ok(MutexGuard { m }) } pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> { while f(&mut *g) { g = self.wait(g)?; } Ok(g) } pub fn notify_all(&self) { c::wake(self.x.get() as usize + (1 << 59)); c::yp(11) } pub fn notify_one(&self) { c::wake_one(self.x.get() as usize + (1 << 59)); c::yp(11) } }
    pub mod mpsc { use super::*; use std::collections::VecDeque; pub use std::sync::mpsc::{RecvError, SendError, TryRecvError};
        struct Ch<T> { q: Mutex<(VecDeque<T>, usize, bool)>, cv: Condvar } pub struct Sender<T>(Arc<Ch<T>>); pub struct Receiver<T>(Arc<Ch<T>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let a = Arc::new(Ch { q: Mutex::new((VecDeque::new(), 1, true)), cv: Condvar::new() }); (Sender(a.clone()), Receiver(a)) }
        impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { let mut g = self.0.q.lock().unwrap(); if !g.2 { return Err(SendError(t)); } g.0.push_back(t); drop(g); self.0.cv.notify_all(); Ok(()) } } impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.q.lock().unwrap().1 += 1; Sender(self.0.clone()) } } impl<T> Drop for Sender<T> { fn drop(&mut self) { if std::thread::panicking() { return; } self.0.q.lock().unwrap().1 -= 1; self.0.cv.notify_all(); } }
        impl<T> Receiver<T> { pub fn recv(&self) -> Result<T, RecvError> { let mut g = self.0.q.lock().unwrap(); loop { if let Some(t) = g.0.pop_front() { return Ok(t); } if g.1 == 0 { return Err(RecvError); } g = self.0.cv.wait(g).unwrap(); } } pub fn try_recv(&self) -> Result<T, TryRecvError> { let mut g = self.0.q.lock().unwrap(); match g.0.pop_front() { Some(t) => Ok(t), None => Err(if g.1 == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) } } } impl<T> Drop for Receiver<T> { fn drop(&mut self) { if !std::thread::panicking() { self.0.q.lock().unwrap().2 = false; } } }
        impl<T> Iterator for Receiver<T> { type Item = T; fn next(&mut self) -> Option<T> { self.recv().ok() } }
    }
    pub mod atomic { use crate::simcore as c; pub use std::sync::atomic::{fence, compiler_fence, Ordering}; use std::sync::atomic as a;
        macro_rules! at { ($($n:ident $t:ty;)*) => { $(#[derive(Debug, Default)] pub struct $n(a::$n); impl $n { pub const fn new(v: $t) -> Self { $n(a::$n::new(v)) } pub fn load(&self, o: Ordering) -> $t { c::yp(20); self.0.load(o) } pub fn store(&self, v: $t, o: Ordering) { c::yp(21); self.0.store(v, o) } pub fn swap(&self, v: $t, o: Ordering) -> $t { c::yp(22); self.0.swap(v, o) } pub fn compare_exchange(&self, x: $t, y: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { c::yp(23); self.0.compare_exchange(x, y, o, p) } pub fn compare_exchange_weak(&self, x: $t, y: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { c::yp(23); self.0.compare_exchange(x, y, o, p) } pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { c::yp(24); self.0.fetch_update(o, p, f) } pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() } pub fn into_inner(self) -> $t { self.0.into_inner() } })* } }
        macro_rules! ar { ($($n:ident $t:ty;)*) => { at! { $($n $t;)* } $(impl $n { pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_add(v, o) } pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_sub(v, o) } pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_max(v, o) } pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_min(v, o) } pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_or(v, o) } pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { c::yp(25); self.0.fetch_and(v, o) } })* } }
        ar! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; } at! { AtomicBool bool; }
    }
}
pub mod rwlock {
    use crate::simsync::Raw; use verus_builtin::Ghost; use std::cell::UnsafeCell;
    pub trait RwLockPredicate<V>: Sized {}
    pub struct RwLock<V, P: RwLockPredicate<V>> { r: Raw, v: UnsafeCell<Option<V>>, p: std::marker::PhantomData<P> }
    unsafe impl<V, P: RwLockPredicate<V>> Sync for RwLock<V, P> {} unsafe impl<V, P: RwLockPredicate<V>> Send for RwLock<V, P> {}
    // a handle that is dropped without being released leaves the lock held, as in vstd
    pub struct WriteHandle<'a, V, P: RwLockPredicate<V>>(&'a RwLock<V, P>); pub struct ReadHandle<'a, V, P: RwLockPredicate<V>>(&'a RwLock<V, P>);
    impl<V, P: RwLockPredicate<V>> RwLock<V, P> {
        pub fn new(v: V, _p: Ghost<P>) -> Self { RwLock { r: Raw::new(), v: UnsafeCell::new(Some(v)), p: std::marker::PhantomData } }
        pub fn acquire_write(&self) -> (V, WriteHandle<'_, V, P>) { self.r.excl(30); (unsafe { (*self.v.get()).take().unwrap() }, WriteHandle(self)) }
        pub fn acquire_read(&self) -> ReadHandle<'_, V, P> { self.r.shared(31); ReadHandle(self) }
        pub fn into_inner(self) -> V { self.v.into_inner().unwrap() }
    }
    impl<'a, V, P: RwLockPredicate<V>> WriteHandle<'a, V, P> { pub fn release_write(self, v: V) { unsafe { *self.0.v.get() = Some(v) } self.0.r.rel_excl(32) } }
    impl<'a, V, P: RwLockPredicate<V>> ReadHandle<'a, V, P> { pub fn borrow<'b>(&'b self) -> &'b V { unsafe { (*self.0.v.get()).as_ref().unwrap() } } pub fn release_read(self) { self.0.r.rel_shared(33) } }
}
// `std` as the tree's sources see it: its threads and locks are the simulator's.
pub mod simstd { pub use std::*; pub use crate::simsync as sync; pub use crate::simthread as thread; }
