//! Drives the real crates through scenarios and records what they do.
//! usage: wsharness SCENARIOS.ndjson OUT.ndjson   (one scenario per line; one {"id","ev"} line per result)
#[macro_use]
mod json;
mod connect;
mod conv;
mod hs;
mod link;
mod mock;
mod netc;
mod nets;
mod recv;
mod send;
mod server;
mod util;

use json::{n, s, J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: util::Counting = util::Counting;

fn run(sc: &J) {
	match sc.s("fam") {
		"recv" => recv::run(sc),
		"send" => send::run(sc),
		"conv" => conv::run(sc),
		"pipe" => link::run_pipe(sc),
		"tcp" => link::run_tcp(sc),
		"duplex" => link::run_duplex(sc),
		"mask" => send::run_mask(sc),
		"srvhs" if sc.has("net") => nets::run(sc),
		"srvhs" => hs::run_server(sc),
		"clihs" if sc.has("fn") => netc::run(sc),
		"clihs" => hs::run_client(sc),
		"httpc" => hs::run_codec(sc),
		"httpe" => hs::run_encode(sc),
		"hdr" => hs::run_hdr(sc),
		"nego" => hs::run_nego(sc),
		"server" => server::run_server(sc),
		"connect" => connect::run_connect(sc),
		f => util::emit(obj! {"k" => s("badfamily"), "f" => s(f)}),
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let input = std::fs::File::open(&args[1]).expect("scenarios");
	let out = Arc::new(Mutex::new(std::io::BufWriter::new(
		std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out"),
	)));
	let progress = format!("{}.cur", args[2]);
	std::panic::set_hook(Box::new(|_| {}));
	let limit = std::env::var("WSH_TIMEOUT").ok().and_then(|x| x.parse().ok()).unwrap_or(20u64);
	let cur = Arc::new(AtomicI64::new(-1));
	let since = Arc::new(AtomicU64::new(0));
	let t0 = Instant::now();
	{
		// watchdog: a scenario that does not come back is itself an observation
		let (cur, since, out) = (cur.clone(), since.clone(), out.clone());
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(200));
			let id = cur.load(Ordering::SeqCst);
			let st = since.load(Ordering::SeqCst);
			if id >= 0 && t0.elapsed().as_millis() as u64 > st + limit * 1000 {
				if cur.load(Ordering::SeqCst) == id {
					let mut o = out.lock().unwrap();
					let r = obj! {"id" => n(id), "ev" => J::A(vec![obj!{"k" => s("hang"), "op" => s("run")}])};
					let _ = writeln!(o, "{}", r);
					let _ = o.flush();
					std::process::exit(3);
				}
			}
		});
	}
	for line in std::io::BufReader::new(input).lines() {
		let line = line.expect("line");
		if line.trim().is_empty() {
			continue;
		}
		let sc = J::parse(&line);
		let id = sc.n("id");
		std::fs::write(&progress, id.to_string()).expect("progress");
		since.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
		cur.store(id, Ordering::SeqCst);
		util::reset();
		let res = catch_unwind(AssertUnwindSafe(|| run(&sc)));
		let mut ev = util::take();
		if let Err(e) = res {
			let m = e
				.downcast_ref::<String>()
				.cloned()
				.or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
				.unwrap_or_default();
			ev.push(obj! {"k" => s("panic"), "op" => s("run"), "e" => J::S(m)});
		}
		cur.store(-1, Ordering::SeqCst);
		let r = obj! {"id" => n(id), "ev" => J::A(ev)};
		let mut o = out.lock().unwrap();
		writeln!(o, "{}", r).expect("write");
		o.flush().expect("flush");
	}
	let _ = std::fs::remove_file(&progress);
}
