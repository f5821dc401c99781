//! Run-time half of the symbolic executor.
//!
//! The code under test is compiled by rustc to LLVM IR; `engine/instrument.py`
//! redirects every operation on `double` (and on `i64`) in that IR to the
//! `__sym_*` functions below.  A symbolic number is a handle: a quiet NaN (or an
//! improbable 64-bit integer) whose low 32 bits index a table of terms, so it
//! flows through the compiled code's registers, memory, collections and formatting like any
//! other value.  An operation on a handle builds a term, a comparison that
//! the path condition does not settle forks the execution (depth-first, by
//! re-running the scenario with a recorded decision prefix), and an operation on
//! plain numbers is the ordinary machine operation.
//!
//! Linked without instrumentation, the same harness runs on concrete inputs:
//! that is the native replay which has to confirm every counterexample.

use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::fmt;

pub mod api;
pub mod clif;
mod fops;
mod iops;

pub use api::*;
pub use clif::{raw_code, template};

pub const FTAG: u64 = 0x7FFC_A5F1_0000_0000;
pub const ITAG: u64 = 0x5EED_A5F1_0000_0000;
pub const TAGMASK: u64 = 0xFFFF_FFFF_0000_0000;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: &'static str,
    pub args: Vec<u32>,
    pub bits: u64,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub key: Key,
    /// value, when the term contains no symbolic input
    pub conc: Option<f64>,
    /// integer-sorted term
    pub int: bool,
    /// interval (integers only)
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone, Debug)]
pub struct Cond {
    pub kind: u8, // 'f' or 'i'
    pub pred: &'static str,
    pub a: u32,
    pub b: u32,
    pub taken: bool,
}

#[derive(Clone, Debug)]
pub struct Claim {
    pub label: String,
    pub kind: &'static str,
    pub a: u32,
    pub b: u32,
    pub tol: f64,
    pub truth: bool,
    /// number of path decisions made when the claim was stated
    pub at: usize,
}

#[derive(PartialEq, Clone, Copy)]
pub enum Mode {
    Native,
    Symbolic,
}

pub struct Rt {
    pub mode: Mode,
    pub nodes: Vec<Node>,
    pub index: HashMap<Key, u32>,
    pub prefix: Vec<bool>,
    pub pos: usize,
    pub trace: Vec<Cond>,
    pub known: HashMap<(u8, &'static str, u32, u32), bool>,
    pub fbounds: HashMap<u32, (f64, f64, bool, bool)>, // lo, hi, strict lo, strict hi
    pub ibounds: HashMap<u32, (i128, i128)>,
    pub claims: Vec<Claim>,
    pub covers: Vec<(String, usize)>,
    pub events: Vec<String>,
    pub outs: Vec<(String, u32)>,
    pub texts: Vec<(String, String)>,
    /// printed numbers: equal values print equally, negative ones with a sign
    pub faithful: bool,
    pub printed: Vec<u32>,
    pub depth_limit: usize,
    pub fuel: u64,
    // native side
    pub inputs: HashMap<String, f64>,
    pub iinputs: HashMap<String, i128>,
    pub nresults: Vec<String>,
    pub forks: u64,
}

struct Cell(UnsafeCell<Option<Rt>>);
// one thread at a time runs a path
unsafe impl Sync for Cell {}
static RT: Cell = Cell(UnsafeCell::new(None));

/// Hash seeds: the same on every path, so that a replayed decision prefix meets the same iteration orders.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = 0x5a ^ (i as u8).wrapping_mul(37) }
    }
    len as isize
}

impl Rt {
    pub fn new(mode: Mode) -> Rt {
        Rt {
            mode,
            nodes: vec![],
            index: HashMap::new(),
            prefix: vec![],
            pos: 0,
            trace: vec![],
            known: HashMap::new(),
            fbounds: HashMap::new(),
            ibounds: HashMap::new(),
            claims: vec![],
            covers: vec![],
            events: vec![],
            outs: vec![],
            texts: vec![],
            faithful: false,
            printed: vec![],
            depth_limit: 400,
            fuel: 4_000_000,
            inputs: HashMap::new(),
            iinputs: HashMap::new(),
            nresults: vec![],
            forks: 0,
        }
    }
    pub fn reset_path(&mut self) {
        self.pos = 0;
        self.trace.clear();
        self.known.clear();
        self.fbounds.clear();
        self.ibounds.clear();
        self.claims.clear();
        self.covers.clear();
        self.events.clear();
        self.outs.clear();
        self.texts.clear();
        self.faithful = false;
        self.printed.clear();
        self.fuel = 4_000_000;
    }
}

/// Access to the runtime.  Never nested: no closure passed here calls user code.
pub fn with<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    let r = unsafe { &mut *RT.0.get() };
    if r.is_none() {
        *r = Some(Rt::new(Mode::Native));
    }
    f(r.as_mut().unwrap())
}

pub struct AssumeFalse;
pub struct Abort(pub String);

pub fn abort(why: &str) -> ! {
    std::panic::resume_unwind(Box::new(Abort(why.to_string())))
}

#[inline]
pub fn fh(x: f64) -> Option<u32> {
    let b = x.to_bits();
    if b & TAGMASK == FTAG {
        Some(b as u32)
    } else {
        None
    }
}
#[inline]
pub fn ih(x: u64) -> Option<u32> {
    if x & TAGMASK == ITAG {
        Some(x as u32)
    } else {
        None
    }
}
#[inline]
pub fn mkf(i: u32) -> f64 {
    f64::from_bits(FTAG | i as u64)
}
#[inline]
pub fn mki(i: u32) -> u64 {
    ITAG | i as u64
}

impl Rt {
    pub fn intern(&mut self, key: Key, conc: Option<f64>, int: bool, lo: i128, hi: i128) -> u32 {
        if let Some(&i) = self.index.get(&key) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { key: key.clone(), conc, int, lo, hi });
        self.index.insert(key, i);
        i
    }
    pub fn fconst(&mut self, x: f64) -> u32 {
        let bits = if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() };
        self.intern(
            Key { op: "const", args: vec![], bits, name: String::new() },
            Some(x),
            false,
            0,
            0,
        )
    }
    pub fn fnode(&mut self, x: f64) -> u32 {
        match fh(x) {
            Some(i) => i,
            None => self.fconst(x),
        }
    }
    pub fn iconst(&mut self, x: i128) -> u32 {
        self.intern(
            Key { op: "iconst", args: vec![], bits: x as u64, name: x.to_string() },
            Some(x as f64),
            true,
            x,
            x,
        )
    }
    pub fn fterm(&mut self, op: &'static str, args: &[u32], conc: Option<f64>) -> u32 {
        self.intern(
            Key { op, args: args.to_vec(), bits: 0, name: String::new() },
            conc,
            false,
            0,
            0,
        )
    }
    /// The bounds given are those on this path; the node is shared between paths.
    pub fn iterm(&mut self, op: &'static str, args: &[u32], lo: i128, hi: i128) -> u32 {
        let (wl, wh) = if op == "iconst" { (lo, hi) } else { (i128::MIN / 4, i128::MAX / 4) };
        let i = self.intern(Key { op, args: args.to_vec(), bits: 0, name: String::new() }, None, true, wl, wh);
        if self.nodes[i as usize].conc.is_none() {
            let cur = self.irange(i);
            self.ibounds.insert(i, (cur.0.max(lo), cur.1.min(hi)));
        }
        i
    }
    pub fn irange(&self, i: u32) -> (i128, i128) {
        let n = &self.nodes[i as usize];
        let (mut lo, mut hi) = (n.lo, n.hi);
        if let Some(&(l, h)) = self.ibounds.get(&i) {
            lo = lo.max(l);
            hi = hi.min(h);
        }
        // recompute structurally so that path refinements of leaves propagate
        let a = |k: usize| self.irange(n.key.args[k]);
        match n.key.op {
            "iadd" => {
                let (x, y) = (a(0), a(1));
                (lo.max(x.0 + y.0), hi.min(x.1 + y.1))
            }
            "isub" => {
                let (x, y) = (a(0), a(1));
                (lo.max(x.0 - y.1), hi.min(x.1 - y.0))
            }
            _ => (lo, hi),
        }
    }

    /// Decide a condition: from the path, from bounds, or by forking.
    pub fn decide(&mut self, kind: u8, pred: &'static str, a: u32, b: u32) -> Result<bool, String> {
        if let Some(&v) = self.known.get(&(kind, pred, a, b)) {
            return Ok(v);
        }
        let taken = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else {
            if self.pos >= self.depth_limit {
                return Err("decision depth limit".into());
            }
            self.forks += 1;
            self.prefix.push(true);
            true
        };
        self.pos += 1;
        self.known.insert((kind, pred, a, b), taken);
        self.trace.push(Cond { kind, pred, a, b, taken });
        Ok(taken)
    }
}

/// How a symbolic number prints: recognisable, and parsed back to the same term.
pub struct HandleText(pub u32);
impl fmt::Display for HandleText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\u{27e6}{}\u{27e7}", self.0)
    }
}
