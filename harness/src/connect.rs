//! Where clients connect and what the first thing is that they say there.
use crate::hs::{accept_for, client_result};
use crate::json::{n, s, J};
use crate::server::identity;
use crate::util::*;
use futures::{Future, Sink, Stream as _};
use native_tls::{Certificate, TlsAcceptor, TlsConnector};
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use websocket::{ClientBuilder, Message, OwnedMessage};

/// keeps what comes in
struct Rec(TcpStream, Arc<Mutex<Vec<u8>>>);
impl Read for Rec {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		let k = self.0.read(b)?;
		self.1.lock().unwrap().extend_from_slice(&b[..k]);
		Ok(k)
	}
}
impl Write for Rec {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.0.write(b)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.0.flush()
	}
}

fn has(h: &[u8], x: &[u8]) -> bool {
	h.windows(x.len()).any(|w| w == x)
}

/// answers one upgrade request, sends a message and waits for one; says whether there was a request
fn answer<S: Read + Write>(c: &mut S) -> bool {
	let mut b = vec![];
	let mut x = [0u8; 1024];
	while !has(&b, b"\r\n\r\n") {
		match c.read(&mut x) {
			Ok(0) | Err(_) => return has(&b, b"GET "),
			Ok(k) => b.extend_from_slice(&x[..k]),
		}
		if !b.starts_with(b"GET "[..std::cmp::min(4, b.len())].as_ref()) {
			return false;
		}
	}
	let low = String::from_utf8_lossy(&b).to_string();
	let key = low
		.split("\r\n")
		.find(|l| l.to_ascii_lowercase().starts_with("sec-websocket-key:"))
		.map(|l| l[18..].trim().to_string())
		.unwrap_or_default();
	let mut r = b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: ".to_vec();
	r.extend(accept_for(key.as_bytes()));
	r.extend_from_slice(b"\r\n\r\n\x81\x02hi");
	let _ = c.write_all(&r);
	let _ = c.flush();
	// the client's message: masked "yo"
	let mut f = [0u8; 8];
	let mut k = 0;
	while k < 8 {
		match c.read(&mut f[k..]) {
			Ok(0) | Err(_) => return true,
			Ok(j) => k += j,
		}
	}
	if f[0] == 0x81 && f[1] == 0x82 && f[6] ^ f[2] == b'y' && f[7] ^ f[3] == b'o' {
		let _ = c.write_all(b"\x81\x02ok");
		let _ = c.flush();
	}
	true
}

fn serve(t: TcpStream, peer: &str, addr: &str, port: u16) -> J {
	let _ = t.set_nonblocking(false);
	let _ = t.set_read_timeout(Some(Duration::from_secs(5)));
	let raw = Arc::new(Mutex::new(vec![]));
	let mut rec = Rec(t, raw.clone());
	let (mut done, mut req) = (false, false);
	match peer {
		"plain" => req = answer(&mut rec),
		"closes" => {
			let mut x = [0u8; 64];
			let _ = rec.read(&mut x);
		}
		p => {
			let a = TlsAcceptor::new(identity(p)).expect("acceptor");
			if let Ok(mut c) = a.accept(rec) {
				done = true;
				req = answer(&mut c);
				let _ = c.shutdown();
			}
		}
	}
	let raw = raw.lock().unwrap();
	let first = if raw.is_empty() {
		"none"
	} else if raw.len() > 2 && raw[0] == 0x16 && raw[1] == 3 {
		"tls"
	} else if raw[0] == b'G' {
		"get"
	} else {
		"other"
	};
	let leak = has(&raw, b"GET ") || has(&raw, b"websocket") || has(&raw, b"Sec-WebSocket");
	obj! {"k" => s("dial"), "addr" => s(addr), "port" => n(port as i64), "first" => s(first), "done" => J::B(done), "req" => J::B(req || (!done && first == "get")), "leak" => J::B(leak)}
}

pub fn connector(name: &str) -> Option<TlsConnector> {
	let root = Certificate::from_pem(include_str!("../certs/root.pem").as_bytes()).expect("root");
	let mut b = TlsConnector::builder();
	match name {
		"none" | "system" => return None,
		"root" => {
			b.add_root_certificate(root);
		}
		"anyhost" => {
			b.add_root_certificate(root).danger_accept_invalid_hostnames(true);
		}
		_ => {
			b.danger_accept_invalid_certs(true).danger_accept_invalid_hostnames(true);
		}
	}
	Some(b.build().expect("connector"))
}

fn talk<S: Read + Write + websocket::stream::Stream>(mut c: websocket::client::sync::Client<S>) -> bool {
	let hi = OwnedMessage::Text("hi".into());
	if c.recv_message().ok() != Some(hi) {
		return false;
	}
	if c.send_message(&Message::text("yo")).is_err() {
		return false;
	}
	c.recv_message().ok() == Some(OwnedMessage::Text("ok".into()))
}
fn atalk<S: websocket::stream::r#async::Stream + Send + 'static>(c: websocket::r#async::Client<S>) -> Box<dyn Future<Item = bool, Error = ()> + Send> {
	Box::new(
		c.into_future()
			.map_err(|_| ())
			.and_then(|(m, c)| c.send(OwnedMessage::Text("yo".into())).map_err(|_| ()).map(move |c| (m, c)))
			.and_then(|(m, c)| {
				c.into_future()
					.map_err(|_| ())
					.map(move |(m2, _)| m == Some(OwnedMessage::Text("hi".into())) && m2 == Some(OwnedMessage::Text("ok".into())))
			})
			.then(|r| Ok(r.unwrap_or(false))),
	)
}

pub fn run_connect(sc: &J) {
	let peer = sc.s("peer").to_string();
	// listeners: the given addresses on the given ports; port 0 stands for one that is free on all of them
	let addrs: Vec<String> = sc.a("addrs").iter().map(|a| match a { J::S(x) => x.clone(), _ => String::new() }).collect();
	let mut ls: Vec<(TcpListener, String, u16)> = vec![];
	let mut free = 0u16;
	for p in sc.a("listen") {
		let p = p.num() as u16;
		'again: for _ in 0..50 {
			let mut got = vec![];
			let mut want = p;
			for a in &addrs {
				match TcpListener::bind((a.as_str(), want)) {
					Ok(l) => {
						want = l.local_addr().unwrap().port();
						got.push((l, a.clone(), want));
					}
					Err(e) => {
						if p == 0 && want != 0 && e.kind() == io::ErrorKind::AddrInUse {
							continue 'again;
						}
						if a.contains(':') && e.kind() != io::ErrorKind::AddrInUse {
							continue; // no IPv6 here
						}
						emit(obj! {"k" => s("nobind"), "port" => n(p as i64), "e" => J::S(e.to_string())});
						return;
					}
				}
			}
			if p == 0 {
				free = want;
			}
			ls.extend(got);
			break;
		}
	}
	if ls.is_empty() && !sc.a("listen").is_empty() {
		emit(obj! {"k" => s("nobind")});
		return;
	}
	if sc.b("vacate") {
		// the port in the URL is one that nobody listens on
		ls.retain(|(_, _, p)| *p != free);
	}
	let url = sc.s("url").replace("PORT", &free.to_string());
	emit(obj! {"k" => s("port"), "p" => n(free as i64)});
	let stop = Arc::new(AtomicBool::new(false));
	let log: Arc<Mutex<Vec<J>>> = Default::default();
	let mut hs = vec![];
	for (l, a, p) in ls {
		l.set_nonblocking(true).unwrap();
		let (stop, log, peer) = (stop.clone(), log.clone(), peer.clone());
		hs.push(thread::spawn(move || loop {
			let last = stop.load(Ordering::SeqCst);
			match l.accept() {
				Ok((t, _)) => {
					let slot = {
						let mut g = log.lock().unwrap();
						g.push(J::Null);
						g.len() - 1
					};
					let e = serve(t, &peer, &a, p);
					log.lock().unwrap()[slot] = e;
				}
				Err(_) => {
					if last {
						return;
					}
					thread::sleep(Duration::from_micros(300));
				}
			}
		}));
	}
	// a panic ends the listeners too, so that the scenarios after it find their ports free
	struct Ends(Arc<AtomicBool>);
	impl Drop for Ends {
		fn drop(&mut self) {
			self.0.store(true, Ordering::SeqCst);
			thread::sleep(Duration::from_millis(if thread::panicking() { 20 } else { 0 }));
		}
	}
	let _ends = Ends(stop.clone());
	let con = || connector(sc.s("con"));
	let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
	let mut b = ClientBuilder::new(&url).expect("url");
	let mut results = vec![];
	for _ in 0..sc.n_or("times", 1) {
		macro_rules! sync {
			($r:expr) => {
				match $r {
					Ok(c) => (true, talk(c), String::new()),
					Err(e) => (false, false, client_result(&e).0),
				}
			};
		}
		macro_rules! asy {
			($r:expr) => {
				match rt.block_on($r) {
					Ok((c, _)) => (true, rt.block_on(atalk(c)).unwrap_or(false), String::new()),
					Err(e) => (false, false, client_result(&e).0),
				}
			};
		}
		let (ok, ws, e) = match sc.s("api") {
			"connect" => sync!(b.connect(con())),
			"secure" => sync!(b.connect_secure(con())),
			"insecure" => sync!(b.connect_insecure()),
			"aconnect" => asy!(ClientBuilder::new(&url).expect("url").async_connect(con())),
			"asecure" => asy!(ClientBuilder::new(&url).expect("url").async_connect_secure(con())),
			_ => asy!(ClientBuilder::new(&url).expect("url").async_connect_insecure()),
		};
		results.push(obj! {"k" => s("result"), "r" => s(if ok { "ok" } else { "err" }), "ws" => J::B(ws), "e" => J::S(e)});
	}
	stop.store(true, Ordering::SeqCst);
	for h in hs {
		let _ = h.join();
	}
	let log = log.lock().unwrap();
	// dials belong to the attempts in order
	let each = if results.len() > 0 { (log.len() + results.len() - 1) / results.len() } else { 0 };
	let mut it = log.iter();
	for r in results {
		for _ in 0..each {
			if let Some(d) = it.next() {
				emit(d.clone());
			}
		}
		emit(r);
	}
}
