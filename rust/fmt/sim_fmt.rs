// Pages on a simulated disk: the formats of Splinter/src/marshalling write and read them, exec/MiniAllocator_v hands out their
// addresses; the modules are the tree's own files. The reference below shares no code with them.
#![allow(unused, non_snake_case, non_camel_case_types)]
pub mod spec { pub mod AsyncDisk_t; pub mod ImplDisk_t; pub mod FloatingSeq_t; pub mod KeyType_t; pub mod MapSpec_t; pub mod Messages_t; pub mod TotalKMMap_t; }
pub mod disk; pub mod marshalling; pub mod allocation_layer { pub mod MiniAllocator_v; } pub mod exec { pub mod MiniAllocator_v; }
use marshalling::{IntegerMarshalling_v::*, KVPairFormat_v::*, Marshalling_v::*, ResizableUniformSizedSeq_v::*, SeqMarshalling_v::*, Slice_v::*, StaticallySized_v::*, UniformSizedSeq_v::*, VariableSizedElementSeq_v::*};
use std::alloc::{GlobalAlloc, Layout, System}; use std::collections::BTreeMap; use std::panic::{catch_unwind, AssertUnwindSafe}; use std::sync::atomic::{AtomicUsize, Ordering}; use vstd::simcore::{self, mix}; use vstd::simrt::{word, Ctx};

// The biggest block of memory anything asks for.
struct Watch; static BIGGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch { unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIGGEST.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BIGGEST.fetch_max(n, Ordering::Relaxed); System.realloc(p, l, n) } }
#[global_allocator] static WATCH: Watch = Watch;

#[derive(Clone, PartialEq, Debug)] pub enum E { Int(u64), Seq(Vec<u64>), KV(Vec<u8>, Vec<u8>) }
fn show(e: &Option<E>) -> String { match e { None => "nothing".into(), Some(e) => { let s = format!("{:?}", e); if s.len() > 60 { format!("{}…", s.chars().take(60).collect::<String>()) } else { s } } } }

// ---- the formats under test behind one interface
pub trait Conv<U> { fn to(e: &E) -> U; fn from(u: &U) -> E; }
pub struct CI; macro_rules! ci { ($($t:ty),*) => { $(impl Conv<$t> for CI { fn to(e: &E) -> $t { match e { E::Int(x) => *x as $t, _ => 0 } } fn from(u: &$t) -> E { E::Int(*u as u64) } } impl Conv<Vec<$t>> for CI { fn to(e: &E) -> Vec<$t> { match e { E::Seq(v) => v.iter().map(|x| *x as $t).collect(), _ => vec![] } } fn from(u: &Vec<$t>) -> E { E::Seq(u.iter().map(|x| *x as u64).collect()) } })* } } ci!(u8, u16, u32, u64);
pub struct K8; pub struct K16; pub struct K32;
macro_rules! kv { ($($n:ident $t:ty),*) => { $(impl KVTrait for $n { type LenType = $t; type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; type DataFormat = UniformSizedElementSeqFormat<IntFormat<u8>>; fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) } } impl Conv<KVPair<$n>> for CI { fn to(e: &E) -> KVPair<$n> { match e { E::KV(k, v) => KVPair { key: k.clone(), value: v.clone() }, _ => KVPair { key: vec![], value: vec![] } } } fn from(u: &KVPair<$n>) -> E { E::KV(u.key.clone(), u.value.clone()) } })* } } kv!(K8 u8, K16 u16, K32 u32);
pub trait SeqP { fn try_length(&self, s: &Slice, d: &Vec<u8>) -> Option<usize>; fn lengthable(&self, s: &Slice, d: &Vec<u8>) -> bool; fn length(&self, s: &Slice, d: &Vec<u8>) -> usize; fn try_get(&self, s: &Slice, d: &Vec<u8>, i: usize) -> Option<(usize, usize)>; fn gettable(&self, s: &Slice, d: &Vec<u8>, i: usize) -> bool; fn get(&self, s: &Slice, d: &Vec<u8>, i: usize) -> (usize, usize); fn try_elt(&self, s: &Slice, d: &Vec<u8>, i: usize) -> Option<E>; fn elt(&self, s: &Slice, d: &Vec<u8>, i: usize) -> E; fn settable(&self, s: &Slice, d: &Vec<u8>, i: usize, e: &E) -> bool; fn set(&self, s: &Slice, d: &mut Vec<u8>, i: usize, e: &E); fn resizable(&self, s: &Slice, d: &Vec<u8>, n: usize) -> bool; fn resize(&self, s: &Slice, d: &mut Vec<u8>, n: usize); fn well_formed(&self, s: &Slice, d: &Vec<u8>) -> bool; fn appendable(&self, s: &Slice, d: &Vec<u8>, e: &E) -> bool; fn append(&self, s: &Slice, d: &mut Vec<u8>, e: &E); }
pub struct H<F, C>(F, std::marker::PhantomData<C>);
impl<F: SeqMarshal, C: Conv<F::Elt>> SeqP for H<F, C> {
    fn try_length(&self, s: &Slice, d: &Vec<u8>) -> Option<usize> { self.0.try_length(s, d) } fn lengthable(&self, s: &Slice, d: &Vec<u8>) -> bool { self.0.exec_lengthable(s, d) } fn length(&self, s: &Slice, d: &Vec<u8>) -> usize { self.0.exec_length(s, d) }
    fn try_get(&self, s: &Slice, d: &Vec<u8>, i: usize) -> Option<(usize, usize)> { self.0.try_get(s, d, i).map(|x| (x.start, x.end)) } fn gettable(&self, s: &Slice, d: &Vec<u8>, i: usize) -> bool { self.0.exec_gettable(s, d, i) } fn get(&self, s: &Slice, d: &Vec<u8>, i: usize) -> (usize, usize) { let x = self.0.exec_get(s, d, i); (x.start, x.end) }
    fn try_elt(&self, s: &Slice, d: &Vec<u8>, i: usize) -> Option<E> { self.0.try_get_elt(s, d, i).map(|x| C::from(&x)) } fn elt(&self, s: &Slice, d: &Vec<u8>, i: usize) -> E { C::from(&self.0.exec_get_elt(s, d, i)) }
    fn settable(&self, s: &Slice, d: &Vec<u8>, i: usize, e: &E) -> bool { self.0.exec_settable(s, d, i, &C::to(e)) } fn set(&self, s: &Slice, d: &mut Vec<u8>, i: usize, e: &E) { self.0.exec_set(s, d, i, &C::to(e)) }
    fn resizable(&self, s: &Slice, d: &Vec<u8>, n: usize) -> bool { self.0.exec_resizable(s, d, n) } fn resize(&self, s: &Slice, d: &mut Vec<u8>, n: usize) { self.0.resize(s, d, n) }
    fn well_formed(&self, s: &Slice, d: &Vec<u8>) -> bool { self.0.exec_well_formed(s, d) } fn appendable(&self, s: &Slice, d: &Vec<u8>, e: &E) -> bool { self.0.exec_appendable(s, d, &C::to(e)) } fn append(&self, s: &Slice, d: &mut Vec<u8>, e: &E) { self.0.exec_append(s, d, &C::to(e)) }
}
// A whole value: a list of elements, or one element.
pub trait ValP { fn parsable(&self, s: &Slice, d: &Vec<u8>) -> bool; fn try_parse(&self, s: &Slice, d: &Vec<u8>) -> Option<Vec<E>>; fn parse(&self, s: &Slice, d: &Vec<u8>) -> Vec<E>; fn size(&self, v: &[E]) -> usize; fn marshall(&self, v: &[E], d: &mut Vec<u8>, start: usize) -> usize; }
pub struct L<F, C>(F, std::marker::PhantomData<C>); pub struct O<F, C>(F, std::marker::PhantomData<C>);
impl<T, F: Marshal<U = Vec<T>>, C: Conv<T>> ValP for L<F, C> { fn parsable(&self, s: &Slice, d: &Vec<u8>) -> bool { self.0.exec_parsable(s, d) } fn try_parse(&self, s: &Slice, d: &Vec<u8>) -> Option<Vec<E>> { self.0.try_parse(s, d).map(|v| v.iter().map(|x| C::from(x)).collect()) } fn parse(&self, s: &Slice, d: &Vec<u8>) -> Vec<E> { self.0.exec_parse(s, d).iter().map(|x| C::from(x)).collect() } fn size(&self, v: &[E]) -> usize { self.0.exec_size(&v.iter().map(|x| C::to(x)).collect()) } fn marshall(&self, v: &[E], d: &mut Vec<u8>, start: usize) -> usize { self.0.exec_marshall(&v.iter().map(|x| C::to(x)).collect(), d, start) } }
impl<F: Marshal, C: Conv<F::U>> ValP for O<F, C> { fn parsable(&self, s: &Slice, d: &Vec<u8>) -> bool { self.0.exec_parsable(s, d) } fn try_parse(&self, s: &Slice, d: &Vec<u8>) -> Option<Vec<E>> { self.0.try_parse(s, d).map(|x| vec![C::from(&x)]) } fn parse(&self, s: &Slice, d: &Vec<u8>) -> Vec<E> { vec![C::from(&self.0.exec_parse(s, d))] } fn size(&self, v: &[E]) -> usize { self.0.exec_size(&C::to(&v[0])) } fn marshall(&self, v: &[E], d: &mut Vec<u8>, start: usize) -> usize { self.0.exec_marshall(&C::to(&v[0]), d, start) } }
pub struct Fmt { seq: Option<Box<dyn SeqP>>, val: Option<Box<dyn ValP>>, init: Option<Box<dyn Fn(&Slice, &mut Vec<u8>)>> }
fn ph<C>() -> std::marker::PhantomData<C> { std::marker::PhantomData }
macro_rules! ints { ($w:expr, $t:ident, $b:expr) => { match $w { 1 => { type $t = u8; $b } 2 => { type $t = u16; $b } 4 => { type $t = u32; $b } _ => { type $t = u64; $b } } } }
fn build(r: &Ref) -> Fmt { let t = r.total;
    match r.kind {
        RESIZE => ints!(r.lensz, Ln, ints!(r.esz, El, { let mk = move || ResizableUniformSizedElementSeqFormat::<IntFormat<El>, Ln>::new(IntFormat::new(), IntFormat::new(), t); Fmt { seq: Some(Box::new(H::<_, CI>(mk(), ph()))), val: Some(Box::new(L::<_, CI>(mk(), ph()))), init: Some(Box::new(move |s, d| mk().initialize(s, d))) } })),
        UNIFORM => ints!(r.esz, El, { let mk = || UniformSizedElementSeqFormat::<IntFormat<El>>::new(IntFormat::new()); Fmt { seq: Some(Box::new(H::<_, CI>(mk(), ph()))), val: Some(Box::new(L::<_, CI>(mk(), ph()))), init: None } }),
        VARIABLE => ints!(r.lensz, Ln, ints!(r.bsz, Bd, ints!(r.esz, El, { let mk = move || VariableSizedElementSeqFormat::<UniformSizedElementSeqFormat<IntFormat<El>>, Bd, Ln>::new(UniformSizedElementSeqFormat::new(IntFormat::new()), IntFormat::new(), IntFormat::new(), t); Fmt { seq: Some(Box::new(H::<_, CI>(mk(), ph()))), val: None, init: Some(Box::new(move |s, d| mk().initialize(s, d))) } }))),
        KEYED => { macro_rules! go { ($k:ident) => { ints!(r.lensz, Ln, ints!(r.bsz, Bd, { let mk = move || VariableSizedElementSeqFormat::<KVPairFormat<$k>, Bd, Ln>::new(KVPairFormat::new(), IntFormat::new(), IntFormat::new(), t); Fmt { seq: Some(Box::new(H::<_, CI>(mk(), ph()))), val: None, init: Some(Box::new(move |s, d| mk().initialize(s, d))) } })) } } match r.esz { 1 => go!(K8), 2 => go!(K16), _ => go!(K32) } }
        PAIR => match r.esz { 1 => Fmt { seq: None, val: Some(Box::new(O::<_, CI>(KVPairFormat::<K8>::new(), ph()))), init: None }, 2 => Fmt { seq: None, val: Some(Box::new(O::<_, CI>(KVPairFormat::<K16>::new(), ph()))), init: None }, _ => Fmt { seq: None, val: Some(Box::new(O::<_, CI>(KVPairFormat::<K32>::new(), ph()))), init: None } },
        _ => ints!(r.esz, El, Fmt { seq: None, val: Some(Box::new(O::<_, CI>(IntFormat::<El>::new(), ph()))), init: None }),
    } }

// ---- the reference: what the bytes of a page mean
pub const RESIZE: u64 = 0; pub const UNIFORM: u64 = 1; pub const VARIABLE: u64 = 2; pub const KEYED: u64 = 3; pub const PAIR: u64 = 4; pub const INT: u64 = 5;
fn le(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) }
fn maxof(w: usize) -> u64 { if w >= 8 { u64::MAX } else { (1 << (8 * w)) - 1 } }
#[derive(Clone)] pub struct Ref { kind: u64, lensz: usize, bsz: usize, esz: usize, total: usize }
#[derive(Clone, PartialEq, Debug)] pub struct Snap { len: Option<u64>, wf: bool, e: Vec<Option<E>> }   // e: what each position that can be read holds
impl Ref {
    fn unit(&self) -> usize { if self.kind == RESIZE { self.esz } else { self.bsz } }
    fn maxlen(&self) -> usize { (self.total - self.lensz) / self.unit() }
    fn table(&self) -> bool { self.kind == RESIZE || self.kind == VARIABLE || self.kind == KEYED }
    fn slot(&self, b: &[u8], i: usize) -> u64 { let a = self.lensz + i * self.unit(); le(&b[a..a + self.unit()]) }
    fn length(&self, b: &[u8]) -> Option<u64> { if self.kind == UNIFORM { Some((b.len() / self.esz) as u64) } else if b.len() < self.total { None } else { Some(le(&b[..self.lensz])) } }
    fn elem(&self, b: &[u8]) -> Option<E> { match self.kind { VARIABLE => Some(E::Seq(b.chunks_exact(self.esz).map(le).collect())), KEYED | PAIR => { if b.len() < self.esz { return None; } let k = le(&b[..self.esz]); if k > (b.len() - self.esz) as u64 { return None; } let k = k as usize + self.esz; Some(E::KV(b[self.esz..k].to_vec(), b[k..].to_vec())) } _ => if b.len() < self.esz { None } else { Some(E::Int(le(&b[..self.esz]))) } } }
    fn place(&self, b: &[u8], i: usize) -> Option<(usize, usize)> { let n = self.length(b)?;
        match self.kind { UNIFORM => if (i as u64) < n { Some((i * self.esz, (i + 1) * self.esz)) } else { None }, RESIZE => if i < self.maxlen() { let a = self.lensz + i * self.esz; Some((a, a + self.esz)) } else { None }, _ => { if i >= self.maxlen() || i as u64 >= n { return None; } let a = self.slot(b, i); let z = if i == 0 { self.total as u64 } else { self.slot(b, i - 1) }; if a <= z && z <= self.total as u64 { Some((a as usize, z as usize)) } else { None } } } }
    fn get(&self, b: &[u8], i: usize) -> Option<E> { let (a, z) = self.place(b, i)?; self.elem(&b[a..z]) }
    fn well_formed(&self, b: &[u8]) -> bool { match self.kind { UNIFORM => false, RESIZE => b.len() >= self.total, _ => { let Some(n) = self.length(b) else { return false }; if n > self.maxlen() as u64 { return false; } let n = n as usize; let t: Vec<u64> = (0..n).map(|i| self.slot(b, i)).collect(); t.windows(2).all(|w| w[1] <= w[0]) && (n == 0 || t[0] <= self.total as u64 && (self.lensz + n * self.bsz) as u64 <= t[n - 1]) } } }
    fn size(&self, e: &E) -> usize { match e { E::Int(_) => self.esz, E::Seq(v) => v.len() * self.esz, E::KV(k, v) => self.esz + k.len() + v.len() } }
    fn free(&self, b: &[u8]) -> u64 { let n = self.length(b).unwrap() as usize; let z = if n == 0 { self.total as u64 } else { self.slot(b, n - 1) }; z - (self.lensz + n * self.bsz) as u64 }
    fn marshallable(&self, e: &E) -> bool { match e { E::KV(k, _) => k.len() as u64 <= maxof(self.esz), _ => true } }
    fn appendable(&self, b: &[u8], e: &E) -> bool { match self.kind { UNIFORM => false, RESIZE => { let n = self.length(b).unwrap(); n < self.maxlen() as u64 && n < maxof(self.lensz) } _ => (self.bsz + self.size(e)) as u64 <= self.free(b) } }
    fn settable(&self, b: &[u8], i: usize) -> bool { match self.kind { UNIFORM => (i as u64) < self.length(b).unwrap(), RESIZE => b.len() >= self.total && i < self.maxlen(), _ => false } }
    fn resizable(&self, b: &[u8], n: usize) -> bool { self.kind == RESIZE && b.len() >= self.total && n <= self.maxlen() && n as u64 <= maxof(self.lensz) }
    fn value(&self, b: &[u8]) -> Option<Vec<E>> { match self.kind { PAIR | INT => self.elem(b).map(|e| vec![e]), _ => { let n = self.length(b)?; if self.kind == RESIZE && n > self.maxlen() as u64 { return None; } (0..n as usize).map(|i| self.get(b, i)).collect() } } }
    fn span(&self, b: &[u8]) -> usize { match self.kind { UNIFORM => b.len() / self.esz, PAIR | INT => 1, _ => self.maxlen() } }
    fn snap(&self, b: &[u8]) -> Snap { if self.kind >= PAIR { return Snap { len: None, wf: true, e: vec![self.elem(b)] }; } let n = if self.length(b).is_none() { 0 } else { self.span(b) }; Snap { len: self.length(b), wf: self.well_formed(b), e: (0..n).map(|i| self.get(b, i)).collect() } }
}

// ---- the run
struct Page { at: (u32, u32), mem: Vec<u8>, model: Snap, damaged: bool, pend: Option<(Vec<u8>, Snap)>, disk: Vec<u8>, stored: Option<Snap>, dirty: bool }
struct Run<'a> { x: &'a mut Ctx, r: Ref, f: Fmt, lead: usize, end: usize, psize: usize, sector: usize, pages: Vec<Page>, cur: usize, seed: u64 }
fn rnd(s: &mut u64) -> u64 { *s = mix(*s, 1); *s }
impl<'a> Run<'a> {
    fn call<T>(&mut self, props: &str, what: &str, f: impl FnOnce(&Fmt) -> T) -> Option<T> { BIGGEST.store(0, Ordering::Relaxed); let fm = &self.f; let v = catch_unwind(AssertUnwindSafe(|| f(fm))); let big = BIGGEST.load(Ordering::Relaxed); if big > 65536 + 64 * self.psize { self.x.bad("R07", format!("{} asks for {} bytes of memory to handle a page of {} bytes", what, big, self.psize)); } match v { Ok(v) => Some(v), Err(_) => { let m = simcore::st().panics.pop().unwrap_or_default(); self.x.bad(props, format!("{} panics: {}", what, m)); None } } }
    fn element(&self, a: u64, b: u64, s: u64) -> E { let mut s = mix(s, 99); match self.r.kind { VARIABLE => E::Seq((0..a.min(4096)).map(|_| rnd(&mut s) & maxof(self.r.esz)).collect()), KEYED | PAIR => E::KV((0..a.min(4096)).map(|_| rnd(&mut s) as u8).collect(), (0..b.min(4096)).map(|_| rnd(&mut s) as u8).collect()), _ => E::Int(a & maxof(self.r.esz)) } }
    fn slice(&self) -> Slice { Slice { start: self.lead, end: self.end } }
    // every question about the bytes of the current page, within the given slice
    fn probe(&mut self, end: usize, undamaged: bool, extra: u64) {
        let pg = &self.pages[self.cur]; let d = pg.mem.clone(); let (lo, r) = (self.lead, self.r.clone()); let b: Vec<u8> = d[lo..end].to_vec(); let s = || Slice { start: lo, end }; let p = if undamaged { "R06,R07" } else { "R07" };
        let how = if undamaged { "an undamaged page" } else { "a damaged page" };
        macro_rules! same { ($what:expr, $want:expr, $f:expr) => { let want = $want; if let Some(got) = self.call(p, &format!("{} on {}", $what, how), $f) { if got != want { let m = format!("{} on {} gives {:?} where {:?} follows from its bytes", $what, how, got, want); self.x.bad(p, m); } } } }
        if self.f.seq.is_some() {
            let len = r.length(&b); same!("try_length", len.map(|n| n as usize), |f: &Fmt| f.seq.as_ref().unwrap().try_length(&s(), &d)); same!("exec_lengthable", len.is_some(), |f: &Fmt| f.seq.as_ref().unwrap().lengthable(&s(), &d)); if let Some(n) = len { same!("exec_length", n as usize, |f: &Fmt| f.seq.as_ref().unwrap().length(&s(), &d)); }
            same!("exec_well_formed", r.well_formed(&b), |f: &Fmt| f.seq.as_ref().unwrap().well_formed(&s(), &d));
            let n = len.map(|n| n.min(1 << 20) as usize).unwrap_or(0); let mut idx: Vec<usize> = vec![0, 1, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, r.span(&b).saturating_sub(1), r.span(&b), r.span(&b) + 1, usize::MAX, usize::MAX / 8 + 1, 1 << 32]; let mut q = extra; for _ in 0..6 { idx.push((rnd(&mut q) % (r.span(&b) as u64 + 2)) as usize); } if r.span(&b) <= 24 { idx.extend(0..r.span(&b)); } idx.sort(); idx.dedup();
            let e = self.element(extra % 5, extra / 5 % 5, extra);
            for i in idx {
                let (pl, el) = (r.place(&b, i).map(|(a, z)| (a + lo, z + lo)), r.get(&b, i));
                same!(format!("try_get({})", i), pl, |f: &Fmt| f.seq.as_ref().unwrap().try_get(&s(), &d, i)); same!(format!("exec_gettable({})", i), pl.is_some(), |f: &Fmt| f.seq.as_ref().unwrap().gettable(&s(), &d, i)); same!(format!("try_get_elt({})", i), el.clone(), |f: &Fmt| f.seq.as_ref().unwrap().try_elt(&s(), &d, i));
                if let Some(pl) = pl { same!(format!("exec_get({})", i), pl, |f: &Fmt| f.seq.as_ref().unwrap().get(&s(), &d, i)); } if let Some(el) = el { same!(format!("exec_get_elt({})", i), el, |f: &Fmt| f.seq.as_ref().unwrap().elt(&s(), &d, i)); }
                same!(format!("exec_settable({})", i), r.settable(&b, i), |f: &Fmt| f.seq.as_ref().unwrap().settable(&s(), &d, i, &e)); same!(format!("exec_resizable({})", i), r.resizable(&b, i), |f: &Fmt| f.seq.as_ref().unwrap().resizable(&s(), &d, i));
            }
            for n in [255usize, 256, 65535, 65536] { same!(format!("exec_resizable({})", n), r.resizable(&b, n), |f: &Fmt| f.seq.as_ref().unwrap().resizable(&s(), &d, n)); }
            if r.well_formed(&b) { let mut es = vec![e]; if r.kind >= VARIABLE { let room = r.free(&b) as i64 - r.bsz as i64; for k in [room, room + 1] { let k = if r.kind == VARIABLE { k / r.esz as i64 + (k % r.esz as i64 != 0) as i64 } else { k - r.esz as i64 }; if k >= 0 { es.push(if r.kind == VARIABLE { self.element(k as u64, 0, extra) } else { let ks = (extra % (k as u64 + 1)).min(maxof(r.esz)); self.element(ks, k as u64 - ks, extra) }); } } } for e in es { same!("exec_appendable", r.appendable(&b, &e), |f: &Fmt| f.seq.as_ref().unwrap().appendable(&s(), &d, &e)); } }
        }
        if self.f.val.is_some() { let v = r.value(&b); same!("try_parse", v.clone(), |f: &Fmt| f.val.as_ref().unwrap().try_parse(&s(), &d)); same!("exec_parsable", v.is_some(), |f: &Fmt| f.val.as_ref().unwrap().parsable(&s(), &d)); if let Some(v) = v { same!("exec_parse", v, |f: &Fmt| f.val.as_ref().unwrap().parse(&s(), &d)); } }
        if self.pages[self.cur].mem != d { self.x.bad("R06,R07", "reading a page changes it".into()); }
        self.x.add("pages.read", 1); if !undamaged { self.x.add("pages.read_damaged", 1); }
    }
    // the page after an operation: its content is as expected, nothing outside the slice has changed
    fn after(&mut self, what: &str, old: &[u8], want: Snap) {
        let (lo, end) = (self.lead, self.end); let pg = &mut self.pages[self.cur]; let m = &pg.mem; let mut e = vec![];
        if m.len() != old.len() { e.push(format!("{} changes the size of the buffer", what)); } else { if let Some(i) = (0..m.len()).find(|i| (*i < lo || *i >= end) && m[*i] != old[*i]) { e.push(format!("{} changes byte {} outside the slice {}..{}", what, i, lo, end)); }
            let got = self.r.snap(&m[lo..end]); if got.len != want.len { e.push(format!("after {} the length is {:?} instead of {:?}", what, got.len, want.len)); } if got.wf != want.wf { e.push(format!("after {} well-formedness is {} instead of {}", what, got.wf, want.wf)); } for i in 0..want.e.len().max(got.e.len()) { let (g, w) = (got.e.get(i).cloned().unwrap_or(None), want.e.get(i).cloned().unwrap_or(None)); if g != w && (w.is_some() || !pg.damaged) { e.push(format!("after {} position {} holds {} instead of {}", what, i, show(&g), show(&w))); break; } } if e.is_empty() { pg.model = got; } else { pg.model = self.r.snap(&m[lo..end]); } }
        pg.dirty = true; for m in e { self.x.bad("R06", m); } self.x.add("pages.updates", 1);
    }
    fn op(&mut self, ev: &[String]) {
        if self.pages.is_empty() { return; } let (lo, end, r) = (self.lead, self.end, self.r.clone()); let s = Slice { start: lo, end }; let pg = &mut self.pages[self.cur]; let old = pg.mem.clone(); let b = old[lo..end].to_vec(); let mut mem = old.clone(); let mut want = pg.model.clone();
        if pg.damaged { want = r.snap(&b); }
        match ev[0].as_str() {
            "put" => { let n = word(ev, 1) as usize; let mut q = word(ev, 2); if self.f.val.is_none() { return; } let v: Vec<E> = match r.kind { PAIR => vec![self.element(word(ev, 1), word(ev, 3), q)], INT => vec![self.element(q, 0, 0)], _ => (0..n.min(200000)).map(|_| E::Int(rnd(&mut q) & maxof(r.esz))).collect() };
                let sz = match r.kind { RESIZE => { if v.len() > r.maxlen() || v.len() as u64 > maxof(r.lensz) { return; } r.total } _ => v.iter().map(|e| r.size(e)).sum() }; if sz > end - lo || !v.iter().all(|e| r.marshallable(e)) { return; }
                let Some(got) = self.call("R06", "exec_size", |f| f.val.as_ref().unwrap().size(&v)) else { return }; if got != sz { self.x.bad("R06", format!("exec_size gives {} for a value that takes {} bytes", got, sz)); }
                let start = match r.kind { PAIR | INT => lo + word(ev, 4) as usize % (end - lo - sz + 1), _ => lo }; let Some(z) = self.call("R06", "exec_marshall", |f| { let z = f.val.as_ref().unwrap().marshall(&v, &mut mem, start); z }) else { return }; if z != start + sz { self.x.bad("R06", format!("exec_marshall at {} ends at {} instead of {}", start, z, start + sz)); }
                if mem.len() == old.len() { if let Some(i) = (0..mem.len()).find(|i| (*i < start || *i >= start + sz) && mem[*i] != old[*i]) { self.x.bad("R06", format!("exec_marshall of {} bytes at {} changes byte {}", sz, start, i)); } let back = r.value(&mem[start..start + sz]); if back.as_ref() != Some(&v) { let g = back.unwrap_or_default(); let i = (0..g.len().max(v.len())).find(|i| g.get(*i) != v.get(*i)).unwrap_or(0); self.x.bad("R06", format!("what exec_marshall wrote reads as {} values instead of {}; value {} is {} instead of {}", g.len(), v.len(), i, show(&g.get(i).cloned()), show(&v.get(i).cloned()))); } let p = Slice { start, end: start + sz }; let m2 = mem.clone(); if let Some(g) = self.call("R06,R07", "try_parse", |f| f.val.as_ref().unwrap().try_parse(&p, &m2)) { if g.as_ref() != Some(&v) { self.x.bad("R06,R07", "try_parse does not return the value that was marshalled".into()); } } }
                let pg = &mut self.pages[self.cur]; pg.mem = mem; pg.damaged = false; let w = if pg.mem.len() == old.len() { let mut w = r.snap(&pg.mem[lo..end]); if r.kind <= UNIFORM { for (i, e) in v.iter().enumerate() { if i < w.e.len() { w.e[i] = Some(e.clone()); } } if r.kind == RESIZE { w.len = Some(v.len() as u64); } else { for i in v.len()..w.e.len() { w.e[i] = r.get(&b, i); } } } w } else { want }; self.after("exec_marshall", &old, w); }
            "set" => { if self.f.seq.is_none() { return; } let i = word(ev, 1) as usize; let e = self.element(word(ev, 2), word(ev, 3), word(ev, 4)); if !r.settable(&b, i) || matches!(r.kind, VARIABLE | KEYED) { return; } if self.call("R06", "exec_set", |f| f.seq.as_ref().unwrap().set(&s, &mut mem, i, &e)).is_none() { return; } want.e[i] = Some(e); self.pages[self.cur].mem = mem; self.after(&format!("exec_set({})", i), &old, want); }
            "app" => { if self.f.seq.is_none() || !r.well_formed(&b) { return; } let e = self.element(word(ev, 1), word(ev, 2), word(ev, 3)); if !r.marshallable(&e) || !r.appendable(&b, &e) { self.x.add("pages.full", 1); return; } let n = r.length(&b).unwrap() as usize; if self.call("R06", "exec_append", |f| f.seq.as_ref().unwrap().append(&s, &mut mem, &e)).is_none() { return; } want.len = Some(n as u64 + 1); while want.e.len() <= n { want.e.push(None); } want.e[n] = Some(e); self.pages[self.cur].mem = mem; self.after("exec_append", &old, want); }
            "resize" => { if self.f.seq.is_none() { return; } let n = word(ev, 1) as usize; if !r.resizable(&b, n) { return; } if self.call("R06", "resize", |f| f.seq.as_ref().unwrap().resize(&s, &mut mem, n)).is_none() { return; } want.len = Some(n as u64); self.pages[self.cur].mem = mem; self.after(&format!("resize({})", n), &old, want); }
            "init" => { if self.f.init.is_none() { return; } if self.call("R06", "initialize", |f| f.init.as_ref().unwrap()(&s, &mut mem)).is_none() { return; } want.len = Some(0); want.wf = true; if r.kind >= VARIABLE { for x in want.e.iter_mut() { *x = None; } } let pg = &mut self.pages[self.cur]; pg.mem = mem; pg.damaged = false; if r.kind == RESIZE { want.e = r.snap(&pg.mem[lo..end]).e; } self.after("initialize", &old, want); }
            _ => {}
        }
    }
    fn reload(&mut self, k: usize) { let (lo, end) = (self.lead, self.end); let r = self.r.clone(); let pg = &mut self.pages[k]; pg.mem = pg.disk.clone(); pg.pend = None; pg.dirty = false; match &pg.stored { Some(m) => { pg.damaged = false; let got = r.snap(&pg.mem[lo..end]); let m = m.clone(); if got != m { self.x.bad("R06", format!("the page at ({}, {}) does not read back as it was written", self.pages[k].at.0, self.pages[k].at.1)); } self.pages[k].model = m; } None => { pg.damaged = true; pg.model = r.snap(&pg.mem[lo..end]); } } }
    fn land(&mut self, k: usize, mask: u64) { let (sec, ps) = (self.sector, self.psize); let pg = &mut self.pages[k]; let Some((img, m)) = pg.pend.take() else { return }; let n = (ps + sec - 1) / sec; let mut kept = 0; for i in 0..n { if mask >> (i % 64) & 1 == 1 { let (a, z) = (i * sec, ((i + 1) * sec).min(ps)); pg.disk[a..z].copy_from_slice(&img[a..z]); kept += 1; } }
        if kept == n || pg.disk == img { pg.stored = Some(m); if kept < n { self.x.add("fault.write_lost_same", 1); } } else if kept > 0 { pg.stored = None; self.x.add("fault.torn_write", 1); } else { self.x.add("fault.lost_write", 1); } }
}
pub fn run(x: &mut Ctx) {
    simcore::start(BTreeMap::new(), u64::MAX);
    let g = |x: &Ctx, n: &str, d: i64| x.knob(n, d).max(0) as usize; let w = |n: usize| [1usize, 2, 4, 8][n % 4];
    let mut r = Ref { kind: g(x, "fmt", 0) as u64 % 6, lensz: w(g(x, "len", 1)), bsz: w(g(x, "bdy", 1)), esz: w(g(x, "elt", 2)), total: 0 }; if matches!(r.kind, KEYED | PAIR) { r.esz = r.esz.min(4); }
    let (lead, slack, tail, sector) = (g(x, "lead", 0), g(x, "slack", 0), g(x, "tail", 0), g(x, "sector", 16).max(1)); r.total = g(x, "total", 64).max(r.lensz); if r.kind == VARIABLE || r.kind == KEYED { r.total = r.total.min(maxof(r.lensz).min(maxof(r.bsz)) as usize).max(r.lensz); }
    let body = if r.table() { r.total + slack } else { r.total.max(r.esz) }; let (end, psize) = (lead + body, lead + body + tail); let au_pages = g(x, "au_pages", 4).max(1) as u32; let seed = g(x, "fill", 1) as u64; let f = build(&r); x.kind(r.kind * 1000 + r.lensz as u64 * 100 + r.bsz as u64 * 10 + r.esz as u64);
    // addresses come from the tree's allocator, one AU at a time
    let mut next_au = g(x, "first_au", 0) as u32; let mut alloc = exec::MiniAllocator_v::MiniAllocator::empty(); let mut used: BTreeMap<u32, Vec<u32>> = BTreeMap::new(); let mut raw: Option<exec::MiniAllocator_v::PageAllocator> = None;
    let evs = x.events.clone(); let mut run = Run { x, r, f, lead, end, psize, sector, pages: vec![], cur: 0, seed };
    for (k, ev) in evs.iter().enumerate() {
        if run.x.viol.len() > 4 { break; } run.x.kind(ev[0].bytes().fold(0, |a, b| a * 31 + b as u64)); let mut q = mix(seed, k as u64);
        match ev[0].as_str() {
            "new" => {
                let full = used.get(&next_au).map(|v| v.len() as u32 >= au_pages).unwrap_or(false);
                if full { let r = catch_unwind(AssertUnwindSafe(|| alloc.prune())); if r.is_err() || alloc.allocs.is_some() { run.x.bad("R08", "an allocation unit is still held after it was pruned".into()); alloc = exec::MiniAllocator_v::MiniAllocator::empty(); } next_au = next_au.wrapping_add(1); run.x.add("alloc.units", 1); }
                if alloc.allocs.is_none() { if catch_unwind(AssertUnwindSafe(|| alloc.add_aus(next_au))).is_err() || alloc.allocs.is_none() { run.x.bad("R08", "an allocation unit cannot be added".into()); break; } used.insert(next_au, vec![]); }
                let at = match catch_unwind(AssertUnwindSafe(|| alloc.allocate_and_observe())) { Ok(a) => (a.au, a.page), Err(_) => { run.x.bad("R08", format!("allocating page {} of {} in unit {} panics", used[&next_au].len(), au_pages, next_au)); break; } };
                run.x.add("alloc.pages", 1); if at.0 != next_au { run.x.bad("R08", format!("the allocator, given unit {}, hands out a page of unit {}", next_au, at.0)); } if at.1 >= au_pages { run.x.bad("R08", format!("page {} is handed out in a unit of {} pages of which {} are in use", at.1, au_pages, used[&next_au].len())); } if used[&next_au].contains(&at.1) { run.x.bad("R08", format!("page ({}, {}) is handed out while it is in use", at.0, at.1)); }
                used.get_mut(&next_au).unwrap().push(at.1); if let Some(a) = &alloc.allocs { if a.observed != a.reserved { run.x.bad("R08", format!("after allocating and observing, {} pages are reserved but {} observed", a.reserved, a.observed)); } if a.au != next_au || a.reserved as usize != used[&next_au].len() { run.x.bad("R08", format!("{} pages of unit {} are in use; the allocator counts {} of unit {}", used[&next_au].len(), next_au, a.reserved, a.au)); } } else { run.x.bad("R08", "the allocator forgets its unit when it hands out a page".into()); }
                let mut mem = vec![0u8; psize]; match word(ev, 1) % 3 { 0 => {} 1 => for b in mem.iter_mut() { *b = 0xff; }, _ => for b in mem.iter_mut() { *b = rnd(&mut q) as u8; } } let model = run.r.snap(&mem[lead..end]); let disk = mem.clone(); run.pages.push(Page { at, mem, model, damaged: true, pend: None, disk, stored: None, dirty: true }); run.cur = run.pages.len() - 1; run.op(&["init".to_string()]); if run.r.kind == UNIFORM { run.pages[run.cur].damaged = false; }
            }
            // a second page allocator used directly: stack references before they are observed
            "res" => { let au = word(ev, 1) as u32; if raw.as_ref().map(|a| a.reserved >= au_pages).unwrap_or(true) { raw = Some(exec::MiniAllocator_v::PageAllocator::new(au)); let a = raw.as_ref().unwrap(); if (a.observed, a.reserved, a.au) != (0, 0, au) { run.x.bad("R08", "a new page allocator is not empty".into()); } } let a = raw.as_mut().unwrap(); let (o, n, u) = (a.observed, a.reserved, a.au); match catch_unwind(AssertUnwindSafe(|| a.reserve())) { Ok(p) => { if p.au != u || p.page != n || a.reserved != n + 1 || a.observed != o || a.au != u { run.x.bad("R08", format!("reserving with {} pages reserved and {} observed gives page ({}, {}) and leaves {} reserved and {} observed", n, o, p.au, p.page, a.reserved, a.observed)); } } Err(_) => run.x.bad("R08", "reserving a page panics".into()) } run.x.add("alloc.reserved", 1); }
            "obs" => if let Some(a) = raw.as_mut() { let (n, u) = (a.reserved, a.au); a.observe_all(); if a.reserved != n || a.observed != n || a.au != u { run.x.bad("R08", format!("observing all of {} reserved pages leaves {} reserved and {} observed", n, a.reserved, a.observed)); } },
            _ if run.pages.is_empty() => {}
            "open" => run.cur = word(ev, 1) as usize % run.pages.len(),
            "probe" => { let d = run.pages[run.cur].damaged; run.probe(end, !d, word(ev, 1)); }
            "short" => { let n = (word(ev, 1) as usize).min(end - lead); run.x.add("fault.short_read", 1); run.probe(end - n, false, word(ev, 2)); }
            "write" => { let c = run.cur; run.land(c, u64::MAX); let pg = &mut run.pages[c]; if !pg.damaged { pg.pend = Some((pg.mem.clone(), pg.model.clone())); } }
            "land" => { let c = run.cur; run.land(c, u64::MAX); run.x.add("disk.landed", 1); }
            "crash" => { run.x.add("fault.crash", 1); let m = word(ev, 1); for k in 0..run.pages.len() { run.land(k, m.rotate_left(k as u32 * 7)); run.reload(k); } raw = None; let c = run.cur; let d = run.pages[c].damaged; run.probe(end, !d, word(ev, 2)); }
            "rot" => { run.x.add("fault.flipped_byte", 1); let c = run.cur; let pg = &mut run.pages[c]; let i = word(ev, 1) as usize % psize; pg.mem[i] ^= (word(ev, 2) as u8).max(1); if i >= lead && i < end { pg.damaged = true; pg.model = run.r.snap(&pg.mem[lead..end]); } let d = pg.damaged; run.probe(end, !d, word(ev, 3)); }
            // damage aimed at the length field (0) or at an entry of the table
            "hit" => { if !run.r.table() && run.r.kind != PAIR { continue; } run.x.add("fault.wrong_field", 1); let c = run.cur; let i = word(ev, 1) as usize; let v = word(ev, 2); let u = run.r.unit(); let (a, n) = if run.r.kind == PAIR { (0, run.r.esz) } else if i == 0 || run.r.maxlen() == 0 { (0, run.r.lensz) } else { (run.r.lensz + (i - 1) % run.r.maxlen() * u, u) }; let pg = &mut run.pages[c]; if lead + a + n > end { continue; } pg.mem[lead + a..lead + a + n].copy_from_slice(&v.to_le_bytes()[..n]); pg.damaged = true; pg.model = run.r.snap(&pg.mem[lead..end]); run.probe(end, false, word(ev, 3)); }
            _ => run.op(ev),
        }
        if !run.pages.is_empty() { let pg = &run.pages[run.cur]; let h = mix(pg.damaged as u64 * 64 + pg.pend.is_some() as u64 * 32 + pg.model.wf as u64, pg.model.len.unwrap_or(999).min(300)); if run.x.states.len() < 300 { run.x.states.push(mix(h, run.r.kind * 4096 + run.r.lensz as u64 * 256 + run.r.bsz as u64 * 16 + run.r.esz as u64)); } }
        let t = run.pages.get(run.cur).map(|p| p.mem.iter().fold(7u64, |a, b| mix(a, *b as u64))).unwrap_or(0); run.x.note(&format!("{} {:x}", ev.join(" "), t));
    }
    if !run.pages.is_empty() { let d = run.pages[run.cur].damaged; run.probe(end, !d, seed); }
    simcore::finish();
}
#[no_mangle] pub unsafe extern "C" fn rs_run(t: *const u8, n: usize, out: extern "C" fn(*const u8, usize)) { vstd::simrt::entry(t, n, out, run) }
