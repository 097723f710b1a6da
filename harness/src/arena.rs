//! Instrumented node storages.
//!
//! `Arena<MODE>` keeps every node it ever allocated (released nodes are
//! emptied but their slot is kept), so that an access through an identifier
//! that is not active is detected and reported instead of being undefined.
use crate::tok::Tok;
use raw_btree::{
	node::LeafNode,
	storage::{BoxPtr, BoxStorage, Dropper},
	Node, RawBTree, Storage,
};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

/// Identifiers are reused as soon as possible.
pub const REUSE: u8 = 1;
/// The storage provides a dropper.
pub const DROPPER: u8 = 2;
/// The nodes move in memory when one is allocated or released; what is left behind are husks, for a while.
pub const MOVING: u8 = 4;
/// No more nodes than this move.
const MOVED: usize = 200;

pub const ALLOC: u8 = 1;
pub const RELEASE: u8 = 2;
pub const DROPNODE: u8 = 3;
pub const BAD: u8 = 4;
pub const GET: u8 = 5;
pub const GETMUT: u8 = 6;
pub const SELFDROP: u8 = 7;
pub const LEAKED: u8 = 8;

thread_local! {
	pub static NLOG: RefCell<Vec<(u8, i64)>> = const { RefCell::new(Vec::new()) };
	pub static VERBOSE: Cell<bool> = const { Cell::new(false) };
	static INST: Cell<u32> = const { Cell::new(0) };
	/// Number of nodes there is room for.
	static ROOM: Cell<Option<usize>> = const { Cell::new(None) };
}

/// What a storage without room says.
pub const FULL: &str = "no room for another node";

/// Runs `f` with room for so many nodes; also tells whether it ran out.
pub fn with_room<R>(n: usize, f: impl FnOnce() -> R) -> (R, bool) {
	ROOM.with(|r| r.set(Some(n)));
	let r = f();
	let out = ROOM.with(|r| r.replace(None)).is_none();
	(r, out)
}

fn log(c: u8, id: i64) {
	NLOG.with(|l| l.borrow_mut().push((c, id)))
}

pub fn forget_events() {
	LOGGED.store(0, Relaxed);
	NLOG.with(|l| l.borrow_mut().clear());
}

pub fn reset_instances() {
	INST.with(|i| i.set(0));
	LOGGED.store(0, Relaxed);
	BOXES.with(|b| b.borrow_mut().clear());
	NLOG.with(|l| l.borrow_mut().clear());
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nid {
	pub inst: u32,
	pub ix: u32,
}

impl Nid {
	pub fn code(self) -> i64 {
		self.inst as i64 * 10000 + self.ix as i64
	}
}

impl From<Nid> for usize {
	fn from(n: Nid) -> usize {
		n.code() as usize
	}
}

struct Slot<const MODE: u8> {
	node: Option<Box<Node<Tok, Arena<MODE>>>>,
	active: bool,
}

struct Inner<const MODE: u8> {
	inst: u32,
	slots: Vec<Slot<MODE>>,
	free: Vec<u32>,
	husks: VecDeque<Vec<Box<Node<Tok, Arena<MODE>>>>>,
}

impl<const MODE: u8> Inner<MODE> {
	fn shuffle(&mut self) {
		if MODE & MOVING != 0 && self.slots.len() < MOVED {
			let mut left = Vec::new();
			for s in &mut self.slots {
				if let Some(mut b) = s.node.take() {
					let node = std::mem::replace(&mut *b, Node::Leaf(LeafNode::new(None, Default::default())));
					s.node = Some(Box::new(node));
					left.push(b)
				}
			}
			self.husks.push_back(left);
			if self.husks.len() > 3 {
				self.husks.pop_front();
			}
		}
	}

	fn check(&self, id: Nid, what: &str) -> usize {
		if id.inst != self.inst || self.slots.get(id.ix as usize).is_none_or(|s| !s.active) {
			log(BAD, id.code());
			panic!("{what} of inactive node {id:?}")
		}
		id.ix as usize
	}
}

pub struct Arena<const MODE: u8>(Rc<std::cell::UnsafeCell<Inner<MODE>>>);

impl<const MODE: u8> Arena<MODE> {
	#[allow(clippy::mut_from_ref)]
	unsafe fn inner(&self) -> &mut Inner<MODE> {
		&mut *self.0.get()
	}
}

impl<const MODE: u8> Default for Arena<MODE> {
	fn default() -> Self {
		let inst = INST.with(|i| {
			i.set(i.get() + 1);
			i.get()
		});
		Arena(Rc::new(std::cell::UnsafeCell::new(Inner { inst, slots: Vec::new(), free: Vec::new(), husks: VecDeque::new() })))
	}
}

impl<const MODE: u8> Drop for Arena<MODE> {
	fn drop(&mut self) {
		let mut rest = Vec::new();
		unsafe {
			let inner = self.inner();
			for (ix, s) in inner.slots.iter_mut().enumerate() {
				if s.active {
					let id = Nid { inst: inner.inst, ix: ix as u32 };
					s.active = false;
					if MODE & DROPPER != 0 {
						// nobody will drop this node.
						log(LEAKED, id.code());
						std::mem::forget(s.node.take());
					} else {
						log(SELFDROP, id.code());
						rest.extend(s.node.take());
					}
				}
			}
		}
		drop(rest)
	}
}

unsafe impl<const MODE: u8> Storage<Tok> for Arena<MODE> {
	type Node = Nid;
	type Dropper = ArenaDrop<MODE>;

	fn allocate_node(&mut self, node: Node<Tok, Self>) -> Nid {
		ROOM.with(|r| match r.get() {
			Some(0) => {
				r.set(None);
				panic!("{FULL}")
			}
			n => r.set(n.map(|n| n - 1)),
		});
		unsafe {
			let inner = self.inner();
			inner.shuffle();
			let ix = match inner.free.pop() {
				Some(ix) if MODE & REUSE != 0 => {
					inner.slots[ix as usize] = Slot { node: Some(Box::new(node)), active: true };
					ix
				}
				_ => {
					inner.slots.push(Slot { node: Some(Box::new(node)), active: true });
					(inner.slots.len() - 1) as u32
				}
			};
			let id = Nid { inst: inner.inst, ix };
			log(ALLOC, id.code());
			id
		}
	}

	unsafe fn release_node(&mut self, id: Nid) -> Node<Tok, Self> {
		let inner = self.inner();
		let ix = inner.check(id, "release");
		log(RELEASE, id.code());
		inner.slots[ix].active = false;
		inner.free.push(id.ix);
		let node = *inner.slots[ix].node.take().unwrap();
		inner.shuffle();
		node
	}

	fn start_dropping(&self) -> Option<ArenaDrop<MODE>> {
		if MODE & DROPPER != 0 {
			Some(ArenaDrop(self.0.clone()))
		} else {
			None
		}
	}

	unsafe fn get(&self, id: Nid) -> &Node<Tok, Self> {
		let inner = self.inner();
		let ix = inner.check(id, "read");
		if VERBOSE.with(|v| v.get()) {
			log(GET, id.code())
		}
		inner.slots[ix].node.as_ref().unwrap()
	}

	unsafe fn get_mut(&mut self, id: Nid) -> &mut Node<Tok, Self> {
		let inner = self.inner();
		let ix = inner.check(id, "write");
		if VERBOSE.with(|v| v.get()) {
			log(GETMUT, id.code())
		}
		inner.slots[ix].node.as_mut().unwrap()
	}
}

pub struct ArenaDrop<const MODE: u8>(Rc<std::cell::UnsafeCell<Inner<MODE>>>);

unsafe impl<const MODE: u8> Dropper<Tok, Arena<MODE>> for ArenaDrop<MODE> {
	unsafe fn drop_node(&mut self, id: Nid) {
		let inner = &mut *self.0.get();
		let ix = inner.check(id, "drop");
		log(DROPNODE, id.code());
		inner.slots[ix].active = false;
		let node = inner.slots[ix].node.take();
		drop(node)
	}
}

// ---- boxed nodes ----

/// Allocator that notes the blocks with the layout of a boxed node, and spoils them when they are freed, so that
/// what is read from a freed node cannot pass for a node.
pub struct Noting;

const BOXLOG: usize = 1 << 18;
struct BoxLog(std::cell::UnsafeCell<[(u8, usize); BOXLOG]>);
unsafe impl Sync for BoxLog {}
static LOG: BoxLog = BoxLog(std::cell::UnsafeCell::new([(0, 0); BOXLOG]));
static LOGGED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const BOXED: Layout = Layout::new::<Node<Tok, BoxStorage>>();
const THREADS: Layout = Layout::new::<Node<crate::threads::Thr, BoxStorage>>();

fn note(c: u8, p: *mut u8) {
	// single-threaded
	let n = LOGGED.load(Relaxed);
	if n < BOXLOG {
		unsafe { (*LOG.0.get())[n] = (c, p as usize) }
		LOGGED.store(n + 1, Relaxed)
	}
}

unsafe impl GlobalAlloc for Noting {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		let p = System.alloc(layout);
		if layout == BOXED {
			note(ALLOC, p)
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
		if layout == BOXED {
			note(RELEASE, p)
		}
		if layout == BOXED || layout == THREADS {
			std::ptr::write_bytes(p, 0xEE, layout.size())
		}
		System.dealloc(p, layout)
	}
}

#[global_allocator]
static ALLOCATOR: Noting = Noting;

thread_local! {
	// small numbers for addresses
	static BOXES: RefCell<HashMap<usize, i64>> = RefCell::new(HashMap::new());
}

fn box_code(a: usize) -> i64 {
	BOXES.with(|b| {
		let mut b = b.borrow_mut();
		let n = b.len() as i64 + 1;
		*b.entry(a).or_insert(n)
	})
}

/// What the harness needs from a storage.
pub trait St: Storage<Tok> + 'static {
	const TAG: &'static str;
	/// A small number standing for a node.
	fn code(n: Self::Node) -> i64;
	/// The number the crate shows for a node.
	fn shown(n: Self::Node) -> i64;
	/// Storage events since the last call.
	fn events() -> Vec<(u8, i64)>;
	fn dot<W: std::io::Write>(tree: &RawBTree<Tok, Self>, w: &mut W) -> std::io::Result<()>;
	/// A storage through which the nodes of any tree can be reached, if there is such a thing.
	fn apart() -> Option<Self> {
		None
	}
}

impl St for BoxStorage {
	const TAG: &'static str = "box";
	fn code(n: BoxPtr<Tok>) -> i64 {
		box_code(n.into())
	}
	fn shown(n: BoxPtr<Tok>) -> i64 {
		let a: usize = n.into();
		a as i64
	}
	fn events() -> Vec<(u8, i64)> {
		let n = LOGGED.load(Relaxed);
		let r = unsafe { (&(*LOG.0.get()))[..n].iter().map(|(c, p)| (*c, box_code(*p))).collect() };
		LOGGED.store(0, Relaxed);
		r
	}
	fn dot<W: std::io::Write>(tree: &RawBTree<Tok, Self>, w: &mut W) -> std::io::Result<()> {
		tree.dot_write(w)
	}
	fn apart() -> Option<Self> {
		Some(BoxStorage)
	}
}

impl<const MODE: u8> St for Arena<MODE> {
	const TAG: &'static str = match MODE {
		0 => "fresh",
		1 => "slab",
		2 => "pool",
		3 => "pool-reuse",
		5 => "moving",
		_ => "moving-pool",
	};
	fn code(n: Nid) -> i64 {
		n.code()
	}
	fn shown(n: Nid) -> i64 {
		n.code()
	}
	fn events() -> Vec<(u8, i64)> {
		NLOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
	}
	fn dot<W: std::io::Write>(tree: &RawBTree<Tok, Self>, w: &mut W) -> std::io::Result<()> {
		tree.dot_write(w)
	}
}
