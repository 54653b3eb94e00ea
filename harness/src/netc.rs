//! Clients made by the functions that open the connection themselves, against a scripted peer behind a
//! real socket. The same account as for scripted transports: request, response, outcome, messages.
use crate::connect::connector;
use crate::hs::*;
use crate::json::{n, s, J};
use crate::mock::*;
use crate::recv::{self, Out};
use crate::server::identity;
use crate::util::*;
use futures::{Future, Stream as _};
use native_tls::TlsAcceptor;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use websocket::codec::ws::MessageCodec;
use websocket::ClientBuilder;

#[derive(Default)]
struct Seen {
	req: Vec<u8>,
	resp: Vec<u8>,
	more: usize,
}

/// takes a request, answers it, and then only counts what else comes
fn play<S: Read + Write>(c: &mut S, parts: &[J], chunk: usize, pause: u64, seen: &Mutex<Seen>, done: &mut dyn FnMut(&mut S)) {
	let mut b = vec![];
	let mut x = [0u8; 1];
	while !b.ends_with(b"\r\n\r\n") {
		match c.read(&mut x) {
			Ok(1) => b.push(x[0]),
			_ => break,
		}
	}
	let whole = b.ends_with(b"\r\n\r\n");
	let r = if whole { response(parts, &b) } else { vec![] };
	{
		let mut g = seen.lock().unwrap();
		g.req = b;
		g.resp = r.clone();
	}
	let h = (0..r.len()).find(|i| r[..*i].ends_with(b"\r\n\r\n")).unwrap_or(r.len());
	let pieces: Vec<&[u8]> = if pause > 0 { vec![&r[..h / 2], &r[h / 2..h], &r[h..]] } else { r.chunks(std::cmp::max(1, chunk)).collect() };
	for (i, p) in pieces.into_iter().enumerate() {
		if pause > 0 && i > 0 {
			std::thread::sleep(Duration::from_millis(pause));
		}
		if c.write_all(p).and_then(|_| c.flush()).is_err() {
			break;
		}
	}
	done(c);
	let mut buf = [0u8; 512];
	while let Ok(k) = c.read(&mut buf) {
		if k == 0 {
			break;
		}
		seen.lock().unwrap().more += k;
	}
}

fn peer(l: TcpListener, tls: bool, parts: Vec<J>, chunk: usize, pause: u64, seen: Arc<Mutex<Seen>>) {
	l.set_nonblocking(true).unwrap();
	let t0 = Instant::now();
	let t = loop {
		match l.accept() {
			Ok((t, _)) => break t,
			Err(_) if t0.elapsed() > Duration::from_secs(5) => return,
			Err(_) => std::thread::sleep(Duration::from_micros(200)),
		}
	};
	let _ = t.set_nonblocking(false);
	let _ = t.set_nodelay(true);
	let _ = t.set_read_timeout(Some(Duration::from_secs(5)));
	if tls {
		let a = TlsAcceptor::new(identity("good")).expect("acceptor");
		if let Ok(mut c) = a.accept(t) {
			play(&mut c, &parts, chunk, pause, &seen, &mut |c| {
				let _ = c.shutdown();
			});
		}
	} else {
		let mut t = t;
		play(&mut t, &parts, chunk, pause, &seen, &mut |c: &mut TcpStream| {
			let _ = c.shutdown(std::net::Shutdown::Write);
		});
	}
}

pub fn messages<S>(rt: &mut tokio::runtime::current_thread::Runtime, f: tokio_codec::Framed<S, MessageCodec<websocket::OwnedMessage>>, then: &str, src: &Arc<Mutex<Src>>)
where
	S: tokio_io::AsyncRead + tokio_io::AsyncWrite + 'static,
{
	if then == "none" {
		return;
	}
	emit(obj! {"k" => s("ws")});
	let mut f = f;
	loop {
		let (out, g) = match rt.block_on(f.into_future()) {
			Ok((Some(m), g)) => (Out::Msg(m), Some(g)),
			Ok((None, _)) => (Out::End, None),
			Err((e, _)) => (Out::Err(e), None),
		};
		let e = recv::event("m", &out, &src.lock().unwrap(), 0, -1, 0);
		emit(e);
		match g {
			Some(g) => f = g,
			None => return,
		}
	}
}

pub fn run(sc: &J) {
	let how = sc.s("fn");
	let l = TcpListener::bind("127.0.0.1:0").unwrap();
	let port = l.local_addr().unwrap().port();
	emit(obj! {"k" => s("port"), "p" => n(port as i64)});
	let url = txt(sc.get("url").unwrap()).replace("PORT", &port.to_string());
	let secure = url.starts_with("wss") || url.starts_with("https");
	let tls = match how {
		"connect" | "aconnect" => secure,
		"secure" | "asecure" => true,
		_ => false,
	};
	let parsed = websocket::url::Url::parse(&url).expect("scenario url");
	let mut b = if sc.b("fromurl") { ClientBuilder::from_url(&parsed) } else { ClientBuilder::new(&url).expect("scenario url") };
	let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
	for step in sc.a("steps") {
		for o in step.a("ops") {
			b = apply_op(b, o);
		}
		emit(obj! {"k" => s("step")});
		let seen = Arc::new(Mutex::new(Seen::default()));
		let (l2, seen2, parts, chunk) = (l.try_clone().unwrap(), seen.clone(), step.a("resp").to_vec(), sc.n_or("chunk", 1_000_000) as usize);
		let pause = sc.n_or("pause", 0) as u64;
		let th = std::thread::spawn(move || peer(l2, tls, parts, chunk, pause, seen2));
		let con = || connector("anyhost");
		let then = step.s("then");
		// what the transport would tell: everything is there, and then it ends
		let told = || {
			let g = seen.lock().unwrap();
			let mut sr = Src::new(g.resp.clone(), VecDeque::new());
			sr.pos = sr.data.len();
			sr.eof_seen = true;
			let wr = Wr::new(VecDeque::new());
			wr.0.lock().unwrap().out = g.req.clone();
			let src = Arc::new(Mutex::new(sr));
			(src, wr)
		};
		let asked = |src: &Arc<Mutex<Src>>, wr: &Wr| {
			request_event(&url, wr, 0);
			emit(obj! {"k" => s("resp"), "raw" => J::from_bytes(&src.lock().unwrap().data)});
		};
		macro_rules! sync {
			($r:expr, $c:ident, $split:expr) => {{
				let r = $r;
				let (src, wr) = told();
				asked(&src, &wr);
				match r {
					Ok($c) => {
						hs_event(Ok($c.headers()), &src, &wr);
						emit(obj! {"k" => s("neg"), "protos" => strs($c.protocols()), "exts" => exts($c.extensions())});
						if then == "split" {
							$split(&src)
						} else {
							use_client($c, step, &src, &wr)
						}
					}
					Err(e) => hs_event(Err(&e), &src, &wr),
				}
			}};
		}
		macro_rules! asy {
			($r:expr) => {{
				let r = rt.block_on($r);
				let (src, wr) = told();
				asked(&src, &wr);
				match r {
					Ok((f, h)) => {
						hs_event(Ok(&h), &src, &wr);
						if then == "into" {
							emit(obj! {"k" => s("ws")});
							let p = f.into_parts();
							let rest = match rt.block_on(tokio_io::io::read_to_end(p.io, vec![])) {
								Ok((_, v)) => v,
								Err(_) => vec![],
							};
							left_event("left", &p.read_buf, rest, 0, &wr);
						} else {
							messages(&mut rt, f, then, &src)
						}
					}
					Err(e) => hs_event(Err(&e), &src, &wr),
				}
			}};
		}
		match how {
			"connect" => sync!(b.connect(con()), c, |_: &Arc<Mutex<Src>>| ()),
			"secure" => sync!(b.connect_secure(con()), c, |_: &Arc<Mutex<Src>>| ()),
			"insecure" => sync!(b.connect_insecure(), c, |src: &Arc<Mutex<Src>>| use_split(c, step, src)),
			"aconnect" => asy!(b.clone().async_connect(con())),
			"asecure" => asy!(b.clone().async_connect_secure(con())),
			_ => asy!(b.clone().async_connect_insecure()),
		}
		let _ = th.join();
		let g = seen.lock().unwrap();
		emit(obj! {"k" => s("fin"), "out" => n((g.req.len() + g.more) as i64)});
	}
}
