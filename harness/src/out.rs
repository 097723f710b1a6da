//! Event records.
use crate::tok::It;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;

pub enum Sink {
	File(std::io::BufWriter<std::fs::File>),
	Mem(Vec<String>),
}

thread_local! {
	static SINK: RefCell<Sink> = const { RefCell::new(Sink::Mem(Vec::new())) };
}

pub fn set_sink(s: Sink) -> Sink {
	SINK.with(|k| std::mem::replace(&mut *k.borrow_mut(), s))
}

pub fn emit(line: String) {
	SINK.with(|k| match &mut *k.borrow_mut() {
		Sink::File(f) => {
			let mut line = line;
			line.push('\n');
			f.write_all(line.as_bytes()).unwrap()
		}
		Sink::Mem(v) => v.push(line),
	})
}

/// Writes what is buffered.  Also called when a session goes wrong, so that a
/// crash leaves the events that led to it.
pub fn finish() {
	SINK.with(|k| {
		if let Sink::File(f) = &mut *k.borrow_mut() {
			f.flush().unwrap()
		}
	})
}

pub struct Ev(String);

impl Ev {
	pub fn new(op: &str) -> Ev {
		Ev(format!("{{\"op\":\"{op}\""))
	}
	pub fn raw(mut self, k: &str, v: impl std::fmt::Display) -> Ev {
		write!(self.0, ",\"{k}\":{v}").unwrap();
		self
	}
	pub fn n(self, k: &str, v: i64) -> Ev {
		self.raw(k, v)
	}
	pub fn b(self, k: &str, v: bool) -> Ev {
		self.raw(k, v)
	}
	pub fn s(self, k: &str, v: &str) -> Ev {
		let q = quote(v);
		self.raw(k, q)
	}
	pub fn item(self, k: &str, v: It) -> Ev {
		self.raw(k, jitem(v))
	}
	pub fn opt(self, k: &str, v: Option<It>) -> Ev {
		self.raw(k, jopt(v))
	}
	pub fn items(self, k: &str, v: &[It]) -> Ev {
		self.raw(k, jitems(v))
	}
	pub fn ints(self, k: &str, v: &[i64]) -> Ev {
		self.raw(k, jints(v))
	}
	pub fn emit(mut self) {
		self.0.push('}');
		emit(self.0)
	}
}

pub fn quote(v: &str) -> String {
	let mut q = String::from("\"");
	for c in v.chars() {
		match c {
			'"' => q.push_str("\\\""),
			'\\' => q.push_str("\\\\"),
			'\n' => q.push_str("\\n"),
			'\t' => q.push_str("\\t"),
			c if (c as u32) < 32 || c as u32 > 126 => q.push('?'),
			c => q.push(c),
		}
	}
	q.push('"');
	q
}

/// Integers are kept within the range of the checker's.
pub fn small(x: i64) -> i64 {
	x.clamp(-2_000_000_000, 2_000_000_000)
}

pub fn jitem(v: It) -> String {
	format!("[{},{},{}]", small(v[0]), small(v[1]), small(v[2]))
}

pub fn jopt(v: Option<It>) -> String {
	match v {
		Some(v) => format!("[{}]", jitem(v)),
		None => "[]".into(),
	}
}

pub fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
	let mut s = String::from("[");
	for (i, x) in v.into_iter().enumerate() {
		if i > 0 {
			s.push(',')
		}
		s.push_str(&f(x));
	}
	s.push(']');
	s
}

pub fn jitems(v: &[It]) -> String {
	list(v.iter(), |x| jitem(*x))
}

pub fn jints(v: &[i64]) -> String {
	list(v.iter(), |x| small(*x).to_string())
}
