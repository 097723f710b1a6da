//! Node views, and the primitives of detached nodes.
use crate::arena::{self, Arena, Nid, St};
use crate::ctx::*;
use crate::out::*;
use crate::tok::*;
use raw_btree::node::{internal, Balance, InternalNode, LeafNode};
use raw_btree::{Node, Storage, M};

fn opt_child(c: Option<i64>) -> i64 {
	c.unwrap_or(0)
}

fn bal(b: &Balance) -> &'static str {
	match b {
		Balance::Balanced => "\"ok\"",
		Balance::Overflow => "\"over\"",
		Balance::Underflow(true) => "\"empty\"",
		Balance::Underflow(false) => "\"under\"",
	}
}

fn sep(a: Option<&Tok>) -> String {
	jopt(a.map(Tok::show))
}

/// Everything a node says about itself.
pub fn view<S: St>(node: &Node<Tok, S>, code: &dyn Fn(S::Node) -> i64, keys: &[i64], ids: &[S::Node]) -> String {
	let n = node.item_count();
	let cc = node.child_count();
	let its = list(-1..=n as i64, |o| jopt(node.item(off(o)).map(Tok::show)));
	let c: Vec<i64> = node.children().map(code).collect();
	let co: Vec<i64> = (0..n + 3).map(|j| opt_child(node.child_id_opt(j).map(code))).collect();
	let ci: Vec<i64> = (0..cc).map(|j| code(node.child_id(j))).collect();
	let cx: Vec<i64> = ids.iter().map(|i| node.child_index(*i).map(|x| x as i64).unwrap_or(-1)).collect();
	let seps = list(0..cc, |j| {
		let (a, b) = node.separators(j);
		format!("[{},{}]", sep(a), sep(b))
	});
	let cws = list(node.children_with_separators().collect::<Vec<_>>(), |(a, c, b)| {
		format!("[{},{},{}]", sep(a), code(c), sep(b))
	});
	let of = list(keys.iter(), |k| {
		let got = node.get(kcmp, k);
		match node.offset_of(kcmp, k) {
			Ok(o) => match got {
				Ok(i) => format!("[1,{},0,{}]", unoff(o), sep(i)),
				Err(_) => "[9,9,9,[]]".into(),
			},
			Err((i, c)) => {
				let c = opt_child(c.map(code));
				let g = match got {
					Ok(None) => 0,
					Ok(Some(_)) => -9,
					Err(c) => code(c),
				};
				format!("[0,{},{},[]]", small(i.min(1 << 30) as i64), if c == g { c } else { -9 })
			}
		}
	});
	let (own, bc) = match node {
		Node::Leaf(l) => {
			let a: Vec<It> = l.items().iter().map(Tok::show).collect();
			let b: Vec<It> = l.iter().map(Tok::show).collect();
			(if a == b { a } else { vec![[-9, -9, -9]] }, vec![])
		}
		Node::Internal(i) => (
			i.branches().iter().map(|b| AsRef::<Tok>::as_ref(b).show()).collect::<Vec<It>>(),
			i.branches().iter().map(|b| code(b.child)).collect(),
		),
	};
	let par = node.parent().map(code).unwrap_or(0);
	let (ls, fc) = match node {
		Node::Leaf(_) => {
			let (a, b) = node.separators(0);
			let (c, d) = node.separators(n);
			(format!("[{},{},{},{}]", sep(a), sep(b), sep(c), sep(d)), 0)
		}
		Node::Internal(i) => ("[[],[],[],[]]".into(), code(i.first_child_id())),
	};
	format!(
		"{{\"ls\":{ls},\"fc\":{fc},\"n\":{},\"cc\":{},\"its\":{},\"c\":{},\"co\":{},\"ci\":{},\"cx\":{},\"sep\":{},\"cws\":{},\"of\":{},\"own\":{},\"bc\":{},\"par\":{},\"bal\":{},\"under\":{},\"over\":{}}}",
		n,
		cc,
		its,
		jints(&c),
		jints(&co),
		jints(&ci),
		jints(&cx),
		seps,
		cws,
		of,
		jitems(&own),
		jints(&bc),
		par,
		bal(&node.balance()),
		node.is_underflowing(),
		node.is_overflowing()
	)
}

pub fn view_mut<S: St>(node: &mut Node<Tok, S>, code: &dyn Fn(S::Node) -> i64, keys: &[i64]) -> String {
	let n = node.item_count() as i64;
	let its = list(-1..=n, |o| jopt(node.item_mut(off(o)).map(|x| x.show())));
	let by = list(keys.iter(), |k| match node.get_mut(kcmp, k) {
		Ok(Some(x)) => format!("[1,{}]", sep(Some(x))),
		Ok(None) => "[]".into(),
		Err(c) => format!("[0,{}]", code(*c)),
	});
	format!("[{its},{by}]")
}

type S = Arena<0>;
type N = Node<Tok, S>;

fn id(ix: u32) -> Nid {
	Nid { inst: 0, ix }
}

fn code(n: Nid) -> i64 {
	n.ix as i64
}

fn pid(p: i64) -> Option<Nid> {
	if p == 0 {
		None
	} else {
		Some(id(p as u32))
	}
}

fn node_json(n: &N) -> String {
	let count = n.item_count().min(50);
	let i: Vec<It> = (0..count).filter_map(|k| n.item(k.into()).map(Tok::show)).collect();
	let c: Vec<i64> = (0..=count).filter_map(|k| n.child_id_opt(k).map(code)).collect();
	format!("{{\"p\":{},\"i\":{},\"c\":{}}}", n.parent().map(code).unwrap_or(0), jitems(&i), jints(&c))
}

/// A leaf or internal node of n items with keys 10, 20, ... and children 101, 102, ...
fn make(leaf: bool, n: usize, parent: i64, base: i64) -> N {
	if leaf {
		let mut node = Node::leaf(pid(parent), Tok::new(base + 10));
		if n == 0 {
			if let Node::Leaf(l) = &mut node {
				l.remove(0.into());
			}
		}
		for j in 1..n {
			node.push_right(Tok::new(base + 10 * (j as i64 + 1)), None);
		}
		node
	} else {
		let b = base as u32;
		let mut node = Node::binary(pid(parent), id(b + 101), Tok::new(base + 10), id(b + 102));
		if n == 0 {
			node.merge(0);
		}
		for j in 1..n {
			node.push_right(Tok::new(base + 10 * (j as i64 + 1)), Some(id(b + 102 + j as u32)));
		}
		node
	}
}

fn prim(f: &str, mut node: N, args: impl FnOnce(Ev) -> Ev, call: impl FnOnce(&mut N) -> Option<String>) {
	let a = node_json(&node);
	ledger(|l| l.drops.clear());
	let r = catch(|| call(&mut node));
	let drops = ledger(|l| std::mem::take(&mut l.drops));
	let ev = args(Ev::new("prim").s("f", f).raw("a", a)).raw("b", node_json(&node)).ints("d", &drops);
	match r {
		Ok(Some(r)) => ev.raw("r", r).emit(),
		Ok(None) => ev.emit(),
		Err(m) => {
			std::mem::forget(node);
			return ev.s("px", &m).emit();
		}
	}
	// dropping the node drops its items once each.
	let a = node_json(&node);
	ledger(|l| l.drops.clear());
	let r = catch(|| drop(node));
	let drops = ledger(|l| std::mem::take(&mut l.drops));
	let ev = Ev::new("prim").s("f", "drop").raw("a", a.clone()).raw("b", a).ints("d", &drops);
	match r {
		Ok(()) => ev.emit(),
		Err(m) => ev.s("px", &m).emit(),
	}
}

fn keep<R>(t: Tok, f: impl FnOnce(&Tok) -> R) -> R {
	let r = f(&t);
	// not a destructor call of the node
	std::mem::forget(t);
	r
}

fn show(t: Tok) -> String {
	keep(t, |t| jitem(t.show()))
}

fn begin(tag: &str) {
	ledger(|l| *l = Ledger::default());
	arena::reset_instances();
	Ev::new("begin").n("m", M as i64).s("tag", tag).s("fam", "prim").b("strict", false).emit()
}

pub fn primitives() {
	for leaf in [true, false] {
		let cap = if leaf { M + 1 } else { M };
		for n in 0..=cap {
			begin(&format!("{} of {n}", if leaf { "leaf" } else { "internal" }));
			for parent in [0, 7] {
				let mk = || make(leaf, n, parent, 0);
				let keys: Vec<i64> = (1..=2 * n as i64 + 1).map(|j| 5 * j + 5 - 5).collect();
				let ids: Vec<Nid> = (1..=n as u32 + 2).map(|j| id(100 + j)).collect();
				{
					let jids: Vec<i64> = ids.iter().map(|i| code(*i)).collect();
					let node = mk();
					let v = catch(|| view(&node, &code, &keys, &ids));
					prim(
						"view",
						node,
						|ev| match &v {
							Ok(v) => ev.raw("v", v).ints("keys", &keys).ints("ids", &jids),
							Err(m) => ev.s("px", m),
						},
						|_| None,
					);
				}
				prim("set_parent", mk(), |ev| ev.n("o", 33), |nd| {
					nd.set_parent(Some(id(33)));
					None
				});
				prim("set_parent", mk(), |ev| ev.n("o", 0), |nd| {
					nd.set_parent(None);
					None
				});
				prim("forget", mk(), |ev| ev, |nd| {
					nd.forget();
					None
				});
				if n < cap {
					for o in 0..=n {
						let x = Tok::new(10 * o as i64 + 5);
						let sx = x.show();
						prim("insert", mk(), |ev| ev.item("x", sx).n("o", o as i64).n("ch", 501), |nd| {
							nd.insert(o.into(), x, if leaf { None } else { Some(id(501)) });
							None
						});
					}
					let x = Tok::new(1);
					let sx = x.show();
					prim("push_left", mk(), |ev| ev.item("x", sx).n("ch", 501), |nd| {
						nd.push_left(x, if leaf { None } else { Some(id(501)) });
						None
					});
					let x = Tok::new(1000);
					let sx = x.show();
					prim("push_right", mk(), |ev| ev.item("x", sx).n("ch", 501), |nd| {
						Some(unoff(nd.push_right(x, if leaf { None } else { Some(id(501)) })).to_string())
					});
				}
				if n >= 1 {
					prim("pop_left", mk(), |ev| ev, |nd| {
						Some(match nd.pop_left() {
							Ok((t, c)) => format!("[{},{}]", show(t), opt_child(c.map(code))),
							Err(_) => "[]".into(),
						})
					});
					prim("pop_right", mk(), |ev| ev, |nd| {
						Some(match nd.pop_right() {
							Ok((o, t, c)) => format!("[{},{},{}]", unoff(o), show(t), opt_child(c.map(code))),
							Err(_) => "[]".into(),
						})
					});
					prim("remove_rightmost_leaf", mk(), |ev| ev, |nd| {
						Some(match nd.remove_rightmost_leaf() {
							Ok(t) => format!("[1,{}]", show(t)),
							Err(c) => format!("[2,{}]", code(c)),
						})
					});
					if leaf {
						prim("remove_last", mk(), |ev| ev, |nd| match nd {
							Node::Leaf(l) => Some(format!("[{}]", show(l.remove_last()))),
							_ => None,
						});
					}
				}
				if n == cap {
					prim("split", mk(), |ev| ev, |nd| {
						let (len, t, right) = nd.split();
						let j = node_json(&right);
						std::mem::forget(right);
						Some(format!("[{},{},{}]", len, show(t), j))
					});
				}
				for o in -1..=n as i64 + 1 {
					prim("leaf_remove", mk(), |ev| ev.n("o", o), |nd| {
						Some(match nd.leaf_remove(off(o)) {
							Some(Ok(t)) => format!("[1,{}]", show(t)),
							Some(Err(c)) => format!("[2,{}]", code(c)),
							None => "[]".into(),
						})
					});
					prim("item_mut", mk(), |ev| ev.n("o", o).n("w", 9), |nd| {
						Some(jopt(nd.item_mut(off(o)).map(|t| {
							let r = t.show();
							t.v = 9;
							r
						})))
					});
				}
				for o in 0..n {
					prim("remove", mk(), |ev| ev.n("o", o as i64), |nd| {
						Some(match nd {
							Node::Leaf(l) => format!("[{}]", show(l.remove(o.into()))),
							Node::Internal(i) => {
								let (a, t, b) = i.remove(o.into());
								format!("[{},{},{}]", code(a), show(t), code(b))
							}
						})
					});
					if !leaf {
						let x = Tok::new(10 * o as i64 + 11);
						let sx = x.show();
						prim("replace", mk(), |ev| ev.item("x", sx).n("o", o as i64), |nd| Some(show(nd.replace(o.into(), x))));
						prim("merge", mk(), |ev| ev.n("o", o as i64), |nd| {
							let (o, l, r, t, b) = nd.merge(o);
							Some(format!("[{},{},{},{},{}]", o, code(l), code(r), show(t), bal(&b)))
						});
					}
				}
				for k in &keys {
					prim("get_mut", mk(), |ev| ev.n("k", *k).n("w", 4), |nd| {
						Some(match nd.get_mut(kcmp, k) {
							Ok(Some(t)) => {
								let r = t.show();
								t.v = 4;
								format!("[1,{}]", jitem(r))
							}
							Ok(None) => "[]".into(),
							Err(c) => format!("[0,{}]", code(*c)),
						})
					});
					if n < cap || k % 10 == 0 {
						let x = Tok::new(*k);
						let sx = x.show();
						prim("insert_by_key", mk(), |ev| ev.item("x", sx), |nd| {
							Some(match nd.insert_by_key(cmp, x) {
								Ok((o, r)) => {
									let s = format!("[{},{}]", unoff(o), jopt(r.as_ref().map(Tok::show)));
									std::mem::forget(r);
									s
								}
								Err(internal::InsertionError { item, child_offset, child_id }) => {
									format!("[-1,{},{},{}]", child_offset, code(child_id), show(item))
								}
							})
						});
					}
				}
				for n2 in 0..cap.saturating_sub(n) {
					let other = make(leaf, n2, 8, 1000);
					let oj = node_json(&other);
					let x = Tok::new(900);
					let sx = x.show();
					prim("append", mk(), |ev| ev.item("x", sx).raw("y", oj), |nd| {
						Some(unoff(nd.append(x, other)).to_string())
					});
				}
			}
		}
	}
	begin("constructors");
	for p in [0, 7] {
		let x = Tok::new(3);
		let sx = x.show();
		prim("new_leaf", Node::leaf(pid(p), x), |ev| ev.n("o", p).item("x", sx), |_| None);
		let x = Tok::new(3);
		let sx = x.show();
		prim("new_leaf", Node::Leaf(LeafNode::from_item(pid(p), x)), |ev| ev.n("o", p).item("x", sx), |_| None);
		let x = Tok::new(3);
		let sx = x.show();
		prim("new_binary", Node::binary(pid(p), id(4), x, id(5)), |ev| ev.n("o", p).item("x", sx).ints("cs", &[4, 5]), |_| None);
		let x = Tok::new(3);
		let sx = x.show();
		prim(
			"new_binary",
			Node::Internal(InternalNode::binary(pid(p), id(4), x, id(5))),
			|ev| ev.n("o", p).item("x", sx).ints("cs", &[4, 5]),
			|_| None,
		);
		let _ = <S as Storage<Tok>>::start_dropping;
	}
}
