//! Drives the real crate over families of histories and records everything
//! the properties speak of; the recordings are checked against the TLA+
//! specification.
mod arena;
mod arr;
mod ctx;
mod fams;
mod forest;
mod out;
mod prim;
mod threads;
mod tok;
mod units;
mod values;

use fams::{Hist, P};
use std::collections::HashMap;

fn read_corpus(path: &str, lo: usize, hi: usize, step: usize, from: usize, head: usize) -> Vec<Hist> {
	let text = std::fs::read_to_string(path).expect("corpus");
	let mut r = Vec::new();
	for (i, line) in text.lines().enumerate() {
		if i >= head && i % step != from {
			continue;
		}
		let hist: Hist = line
			.split_whitespace()
			.map(|w| {
				let (a, b) = w.split_at(1);
				(a == "+", b.parse().unwrap())
			})
			.collect();
		let size = hist.iter().map(|x| if x.0 { 1i64 } else { -1 }).sum::<i64>() as usize;
		if size >= lo && size <= hi {
			r.push(hist)
		}
	}
	r
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.len() == 2 && args[1] == "order" {
		return println!("{}", raw_btree::M);
	}
	let fam = args[1].clone();
	let kv: HashMap<&str, &str> = args[3..].iter().filter_map(|a| a.split_once('=')).collect();
	let num = |k: &str, d: usize| kv.get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
	let p = P {
		seed: num("seed", 1) as u64,
		n: num("n", 100),
		count: num("count", 1),
		obs: num("obs", 0) as u32,
		every: num("every", 1),
		corpus: kv
			.get("corpus")
			.map(|c| read_corpus(c, num("lo", 0), num("hi", 1000), num("step", 1), num("from", 0), num("head", 0)))
			.unwrap_or_default(),
		only: kv.get("only").map(|o| o.split(',').map(str::to_string).collect()).unwrap_or_default(),
	};
	ctx::install_hook();
	out::set_sink(out::Sink::File(std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output file"))));
	match fam.as_str() {
		"prim" => prim::primitives(),
		"arrays" => arr::arrays(&p),
		"values" => values::values(p.seed),
		"par" => fams::par(&p),
		"units" => units::units(&p),
		"threads" => threads::threads(&p),
		_ => {
			for st in kv.get("st").copied().unwrap_or("box").split(',') {
				match st {
					"box" => run::<raw_btree::storage::BoxStorage>(&fam, &p),
					"fresh" => run::<arena::Arena<0>>(&fam, &p),
					"slab" => run::<arena::Arena<1>>(&fam, &p),
					"pool" => run::<arena::Arena<2>>(&fam, &p),
					"pool-reuse" => run::<arena::Arena<3>>(&fam, &p),
					"moving" => run::<arena::Arena<5>>(&fam, &p),
					"moving-pool" => run::<arena::Arena<6>>(&fam, &p),
					_ => panic!("unknown storage {st}"),
				}
			}
		}
	}
	out::emit("{\"op\":\"eof\"}".into());
	out::finish();
	// nothing of what is left matters
	std::process::exit(0)
}

fn run<S: arena::St>(fam: &str, p: &P) {
	let f = match fam {
		"keyed" => fams::keyed::<S>,
		"full" => fams::full::<S>,
		"fullrand" => fams::fullrand::<S>,
		"grow" => fams::grow::<S>,
		"steps" => fams::steps::<S>,
		"coarse" => fams::coarse::<S>,
		"crand" => fams::crand::<S>,
		"psteps" => fams::psteps::<S>,
		"nav" => fams::nav::<S>,
		"prand" => fams::prand::<S>,
		"iters" => fams::iters::<S>,
		"bulks" => fams::bulks::<S>,
		"big" => fams::big::<S>,
		"wholes" => fams::wholes::<S>,
		"indep" => fams::indep::<S>,
		"reset" => fams::reset::<S>,
		"views" => fams::views::<S>,
		"vrand" => fams::vrand::<S>,
		"tamper" => fams::tamper::<S>,
		"lax" => fams::lax::<S>,
		"laxrand" => fams::laxrand::<S>,
		"faults" => fams::faults::<S>,
		"own" => fams::own::<S>,
		"writes" => fams::writes::<S>,
		"cost" => fams::cost::<S>,
		"mass" => fams::mass::<S>,
		"forest" => forest::forest::<S>,
		"grafts" => forest::grafts::<S>,
		_ => panic!("unknown family {fam}"),
	};
	f(p)
}
