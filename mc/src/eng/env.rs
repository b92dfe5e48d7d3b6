//! The controlled environment: external memory, registry, input bytes, metadata.
use super::explore::Ctx;
use super::tyb::*;
use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use core::cell::RefCell;
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams, ResolveType, SignedExtensionMetadata, SpecNameVersion};

pub const FUEL: usize = 2_000_000;

/// External memory: counts accesses, fails chosen ones, lets another parse run inside a chosen one.
pub struct Mem {
    pub n: usize,
    pub fail_at: usize,
    pub persistent: bool,
    pub failed: usize,
    pub hook_at: usize,
    pub hook: Option<Box<dyn FnMut()>>,
}
impl core::fmt::Debug for Mem {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "Mem({})", self.n)
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Fault;
impl core::fmt::Display for Fault {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "injected memory fault")
    }
}
impl ExternalMemory for Mem {
    type ExternalMemoryError = Fault;
}
impl Mem {
    pub fn new() -> Self {
        Mem { n: 0, fail_at: usize::MAX, persistent: false, failed: 0, hook_at: usize::MAX, hook: None }
    }
    pub fn failing(at: usize, persistent: bool) -> Self {
        Mem { fail_at: at, persistent, ..Mem::new() }
    }
    pub fn tick(&mut self) -> Result<(), Fault> {
        let i = self.n;
        self.n += 1;
        if self.n > FUEL {
            panic!("FUEL: more than {FUEL} environment accesses in one parse: endless loop");
        }
        if i == self.hook_at {
            if let Some(mut h) = self.hook.take() {
                h();
            }
        }
        if i == self.fail_at || (self.persistent && i > self.fail_at) {
            self.failed += 1;
            return Err(Fault);
        }
        Ok(())
    }
}

/// What the reference decoder reads.
pub trait World {
    fn ty(&self, id: u32) -> Option<Rc<T>>;
    /// `n` bytes at `pos`; only called within `total`.
    fn bytes(&self, pos: usize, n: usize) -> Vec<u8>;
}

pub trait TypePolicy {
    fn choose_type(&self, ctx: &mut Ctx, g: &mut Graph, id: u32) -> Option<T>;
}

/// Ids handed out so far.
pub struct Graph {
    pub next_fresh: u32,
    pub nodes_left: usize,
    /// ids of the non-leaf nodes handed out, in order
    pub handed: Vec<u32>,
}

#[derive(Clone)]
pub struct BytePolicy {
    /// alphabet of single bytes, default first
    pub single: Vec<u8>,
    /// first reads that branch
    pub max_branch: usize,
    /// patterns for wide reads (1..=4)
    pub wide: usize,
    /// alternatives cost a deviation
    pub dev: bool,
}

pub fn pattern(k: usize, pos: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match k {
            0 => 0u8,
            1 => ((pos + i) as u8).wrapping_mul(37).wrapping_add(11),
            2 => 0xff,
            3 => (i == 0) as u8,
            4 => b'a' + ((pos + i) % 26) as u8,
            _ => 0x80u8 >> (i % 8),
        })
        .collect()
}

pub struct St {
    pub ctx: Option<Ctx>,
    pub types: BTreeMap<u32, Option<Rc<T>>>,
    pub graph: Graph,
    pub bytes: Vec<Option<u8>>,
    /// position of the first of them
    pub origin: usize,
    pub branched: usize,
    pub branching: bool,
    pub tpol: Rc<dyn TypePolicy>,
    pub bpol: BytePolicy,
}

pub struct Env {
    pub st: RefCell<St>,
}

impl Env {
    /// Takes the context out of `ctx` for the time of the exploration; give it back with `finish`.
    pub fn new(ctx: &mut Ctx, tpol: Rc<dyn TypePolicy>, bpol: BytePolicy, first_fresh: u32, nodes: usize) -> Rc<Env> {
        let mine = core::mem::replace(ctx, Ctx::new(Vec::new(), false));
        Rc::new(Env {
            st: RefCell::new(St {
                ctx: Some(mine),
                types: BTreeMap::new(),
                graph: Graph { next_fresh: first_fresh, nodes_left: nodes, handed: Vec::new() },
                bytes: Vec::new(),
                origin: 0,
                branched: 0,
                branching: true,
                tpol,
                bpol,
            }),
        })
    }
    pub fn finish(&self, ctx: &mut Ctx) {
        let mut st = self.st.borrow_mut();
        *ctx = st.ctx.take().expect("HARNESS: context");
    }
    pub fn stop_branching(&self) {
        self.st.borrow_mut().branching = false;
    }
    pub fn known_types(&self) -> Types {
        let st = self.st.borrow();
        Types { map: st.types.iter().filter_map(|(k, v)| v.clone().map(|v| (*k, v))).collect() }
    }
    /// Bytes chosen so far, unknown ones as `fill`, `len` long.
    pub fn known_bytes(&self, len: usize, fill: u8) -> Vec<u8> {
        let st = self.st.borrow();
        (0..len).map(|i| st.bytes.get(i).copied().flatten().unwrap_or(fill)).collect()
    }
}

impl World for Env {
    fn ty(&self, id: u32) -> Option<Rc<T>> {
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        if let Some(t) = st.types.get(&id) {
            return t.clone();
        }
        let pol = st.tpol.clone();
        let ctx = st.ctx.as_mut().expect("HARNESS: ctx");
        let t = pol.choose_type(ctx, &mut st.graph, id).map(Rc::new);
        if ctx.want_notes {
            let s = alloc::format!("type {id} := {t:?}");
            ctx.notes.push(s);
        }
        st.types.insert(id, t.clone());
        t
    }
    fn bytes(&self, pos: usize, n: usize) -> Vec<u8> {
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        if pos < st.origin {
            return alloc::vec![0xee; n];
        }
        let pos = pos - st.origin;
        if st.bytes.len() < pos + n {
            st.bytes.resize(pos + n, None);
        }
        let mut i = pos;
        while i < pos + n {
            if st.bytes[i].is_some() {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < pos + n && st.bytes[j].is_none() {
                j += 1;
            }
            let len = j - i;
            let chosen = if !st.branching || st.branched >= st.bpol.max_branch {
                if st.bpol.single.is_empty() { pattern(0, i, len) } else { alloc::vec![st.bpol.single[0]; len] }
            } else {
                st.branched += 1;
                let ctx = st.ctx.as_mut().expect("HARNESS: ctx");
                if len == 1 {
                    let m = st.bpol.single.len();
                    let c = if st.bpol.dev { ctx.choose_dev(m) } else { ctx.choose(m) };
                    alloc::vec![st.bpol.single[c]]
                } else {
                    let m = st.bpol.wide;
                    let c = if st.bpol.dev { ctx.choose_dev(m) } else { ctx.choose(m) };
                    pattern(c, i, len)
                }
            };
            for (k, b) in chosen.iter().enumerate() {
                st.bytes[i + k] = Some(*b);
            }
            let ctx = st.ctx.as_mut().expect("HARNESS: ctx");
            if ctx.want_notes {
                let s = alloc::format!("bytes[{}..{}] := {}", i, j, hex::encode(&chosen));
                ctx.notes.push(s);
            }
            i = j;
        }
        st.bytes[pos..pos + n].iter().map(|b| b.expect("HARNESS: byte")).collect()
    }
}

/// A fixed registry.
#[derive(Clone, Default)]
pub struct Types {
    pub map: BTreeMap<u32, Rc<T>>,
}
impl Types {
    pub fn from_vec(v: Vec<T>) -> Types {
        Types { map: v.into_iter().enumerate().map(|(i, t)| (i as u32, Rc::new(t))).collect() }
    }
}

/// Fixed world: concrete registry and concrete data.
pub struct Fixed<'a> {
    pub types: &'a Types,
    pub data: &'a [u8],
}
impl World for Fixed<'_> {
    fn ty(&self, id: u32) -> Option<Rc<T>> {
        self.types.map.get(&id).cloned()
    }
    fn bytes(&self, pos: usize, n: usize) -> Vec<u8> {
        self.data[pos..pos + n].to_vec()
    }
}

#[derive(Clone)]
pub enum Reg {
    Lazy(Rc<Env>),
    Fixed(Rc<Types>),
}
impl ResolveType<Mem> for Reg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<T, RegistryError<Mem>> {
        m.tick().map_err(RegistryError::External)?;
        let t = match self {
            Reg::Lazy(e) => e.ty(id),
            Reg::Fixed(t) => t.map.get(&id).cloned(),
        };
        match t {
            Some(t) => Ok((*t).clone()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}

/// Input whose bytes are chosen when first read.
#[derive(Clone)]
pub struct LazyBuf {
    pub env: Rc<Env>,
    pub len: usize,
}
fn bounds(pos: usize, n: usize, len: usize) -> Result<(), BufferError<Mem>> {
    if len < pos {
        return Err(BufferError::OutOfRange { position: pos, total_length: len });
    }
    match pos.checked_add(n) {
        Some(e) if e <= len => Ok(()),
        _ => Err(BufferError::DataTooShort { position: pos, minimal_length: n }),
    }
}
impl AddressableBuffer<Mem> for LazyBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, pos: usize, n: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        m.tick().map_err(BufferError::External)?;
        bounds(pos, n, self.len)?;
        Ok(self.env.bytes(pos, n))
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len <= self.len {
            Ok(LazyBuf { env: self.env.clone(), len: new_len })
        } else {
            Err(BufferError::DataTooShort { position: 0, minimal_length: new_len })
        }
    }
}

/// Concrete input in pages; every page touched is one access.
#[derive(Clone)]
pub struct Paged {
    pub data: Rc<Vec<u8>>,
    /// start offset within the first page
    pub skew: usize,
    pub page: usize,
    pub len: usize,
}
impl Paged {
    pub fn new(data: &[u8], page: usize, skew: usize) -> Paged {
        Paged { data: Rc::new(data.to_vec()), skew, page, len: data.len() }
    }
}
impl AddressableBuffer<Mem> for Paged {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, pos: usize, n: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        if let Err(e) = bounds(pos, n, self.len) {
            m.tick().map_err(BufferError::External)?;
            return Err(e);
        }
        let mut out = Vec::with_capacity(n);
        if n == 0 {
            m.tick().map_err(BufferError::External)?;
            return Ok(out);
        }
        let mut p = pos;
        while p < pos + n {
            m.tick().map_err(BufferError::External)?;
            let page_end = ((p + self.skew) / self.page + 1) * self.page - self.skew;
            let e = page_end.min(pos + n);
            out.extend_from_slice(&self.data[p..e]);
            p = e;
        }
        Ok(out)
    }
    fn read_byte(&self, m: &mut Mem, pos: usize) -> Result<u8, BufferError<Mem>> {
        m.tick().map_err(BufferError::External)?;
        bounds(pos, 1, self.len)?;
        Ok(self.data[pos])
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len <= self.len {
            Ok(Paged { len: new_len, ..self.clone() })
        } else {
            Err(BufferError::DataTooShort { position: 0, minimal_length: new_len })
        }
    }
}

/// Synthetic metadata.
#[derive(Clone)]
pub struct Meta {
    pub reg: Reg,
    pub version: String,
    pub name: String,
    pub call_ty: u32,
    pub exts: Vec<(String, u32, u32)>,
    pub params: [u32; 4],
    pub ext_version: u8,
    /// which metadata question is answered by an error
    pub broken: Option<MetaQ>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MetaQ {
    SpecNameVersion,
    CallTy,
    SignedExtensions,
    Params,
    Version,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct MetaErr(pub MetaQ);
impl core::fmt::Display for MetaErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "metadata does not answer {:?}", self.0)
    }
}
impl core::fmt::Debug for Meta {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "Meta({} {})", self.name, self.version)
    }
}
impl PartialEq for Meta {
    fn eq(&self, o: &Meta) -> bool {
        self.name == o.name && self.version == o.version
    }
}
impl Eq for Meta {}
impl Meta {
    pub fn plain(reg: Reg) -> Meta {
        Meta { reg, version: "1".to_string(), name: "chain".to_string(), call_ty: 0, exts: Vec::new(), params: [0; 4], ext_version: 4, broken: None }
    }
    fn ask(&self, q: MetaQ) -> Result<(), MetaErr> {
        if self.broken == Some(q) { Err(MetaErr(q)) } else { Ok(()) }
    }
}
impl AsMetadata<Mem> for Meta {
    type TypeRegistry = Reg;
    type MetaStructureError = MetaErr;
    fn types(&self) -> Reg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, MetaErr> {
        self.ask(MetaQ::SpecNameVersion)?;
        Ok(SpecNameVersion { printed_spec_version: self.version.clone(), spec_name: self.name.clone() })
    }
    fn call_ty(&self) -> Result<Sym, MetaErr> {
        self.ask(MetaQ::CallTy)?;
        Ok(sym(self.call_ty))
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, MetaErr> {
        self.ask(MetaQ::SignedExtensions)?;
        Ok(self.exts.iter().map(|(i, a, b)| SignedExtensionMetadata { identifier: i.clone(), ty: sym(*a), additional_signed: sym(*b) }).collect())
    }
}
impl AsCompleteMetadata<Mem> for Meta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, MetaErr> {
        self.ask(MetaQ::Params)?;
        Ok(ExtrinsicTypeParams { address_ty: sym(self.params[0]), call_ty: sym(self.params[1]), signature_ty: sym(self.params[2]), extra_ty: sym(self.params[3]) })
    }
    fn extrinsic_version(&self) -> Result<u8, MetaErr> {
        self.ask(MetaQ::Version)?;
        Ok(self.ext_version)
    }
}

/// The largest piece of memory asked for by this thread since the last `forget_biggest`.
#[cfg(feature = "host")]
pub mod memory {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    std::thread_local! {
        static BIG: Cell<usize> = const { Cell::new(0) };
    }
    pub struct Counting;
    fn saw(n: usize) {
        let _ = BIG.try_with(|b| {
            if n > b.get() {
                b.set(n)
            }
        });
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            saw(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            saw(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            saw(n);
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    pub fn forget() {
        BIG.with(|b| b.set(0))
    }
    pub fn biggest() -> usize {
        BIG.with(|b| b.get())
    }
}
#[cfg(not(feature = "host"))]
pub mod memory {
    pub fn forget() {}
    pub fn biggest() -> usize {
        0
    }
}

#[cfg(feature = "host")]
std::thread_local! {
    static DEPTH: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Panic messages inside `guard`/`guarded` are kept, not printed.
#[cfg(feature = "host")]
pub fn quiet_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if DEPTH.with(|d| d.get()) > 0 {
            let s = i.to_string();
            LAST.with(|l| *l.borrow_mut() = s);
        } else {
            old(i)
        }
    }));
}
#[cfg(feature = "host")]
fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r.map_err(|p| {
        let s = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if s.starts_with("HARNESS") { s } else { alloc::format!("{s} [{}]", LAST.with(|l| l.borrow().clone())) }
    })
}
/// Runs real code, turning a panic into a message (hosted builds only).
#[cfg(feature = "host")]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match caught(f) {
        Err(s) if s.starts_with("HARNESS") => std::panic::panic_any(s),
        r => r,
    }
}
/// Runs a whole execution; any panic that reaches this is a fault of the machinery.
#[cfg(feature = "host")]
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    caught(f)
}
#[cfg(not(feature = "host"))]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    Ok(f())
}
