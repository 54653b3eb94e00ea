//! Whole servers with many clients that behave, stall, send rubbish or vanish, over TCP and TLS.
use crate::json::{n, s, J};
use crate::util::*;
use futures::{Future, Stream as _};
use hyper::uri::RequestUri;
use native_tls::{Identity, TlsAcceptor, TlsConnector};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use websocket::server::upgrade::HyperIntoWsError;

pub fn identity(name: &str) -> Identity {
	let (c, k): (&str, &str) = match name {
		"wrong" => (include_str!("../certs/wrong.pem"), include_str!("../certs/wrong.key")),
		"untrusted" => (include_str!("../certs/untrusted.pem"), include_str!("../certs/untrusted.key")),
		"expired" => (include_str!("../certs/expired.pem"), include_str!("../certs/expired.key")),
		_ => (include_str!("../certs/good.pem"), include_str!("../certs/good.key")),
	};
	Identity::from_pkcs8(c.as_bytes(), k.as_bytes()).expect("identity")
}

/// close with a reset instead of an orderly end
pub fn reset_on_close(t: &TcpStream) {
	#[repr(C)]
	struct Linger {
		on: i32,
		secs: i32,
	}
	extern "C" {
		fn setsockopt(fd: i32, level: i32, name: i32, val: *const Linger, len: u32) -> i32;
	}
	let l = Linger { on: 1, secs: 0 };
	unsafe {
		setsockopt(t.as_raw_fd(), 1, 13, &l, 8);
	}
}

struct Item {
	ok: bool,
	addr: Option<SocketAddr>,
	uri: i64,
	end: bool,
	why: &'static str,
}

fn path_no(u: &RequestUri) -> i64 {
	match u {
		RequestUri::AbsolutePath(p) => p.trim_start_matches("/c").parse().unwrap_or(0),
		_ => 0,
	}
}
fn why(e: &HyperIntoWsError) -> &'static str {
	match e {
		HyperIntoWsError::Io(e) if e.kind() == std::io::ErrorKind::WouldBlock => "block",
		_ => "other",
	}
}

enum Cli {
	Plain(Option<TcpStream>),
	Tls(Sender<Op>, SocketAddr),
}
enum Op {
	Hello,
	Send(Vec<u8>),
	Raw(Vec<u8>),
	How(String),
	Read(Sender<i64>),
}

fn code_of(r: &mut dyn Read) -> i64 {
	let mut b = vec![];
	let mut x = [0u8; 512];
	loop {
		match r.read(&mut x) {
			Ok(0) | Err(_) => break,
			Ok(k) => b.extend_from_slice(&x[..k]),
		}
		if b.windows(4).any(|w| w == b"\r\n\r\n") {
			break;
		}
	}
	if b.starts_with(b"HTTP/1.1 ") && b.len() > 12 {
		String::from_utf8_lossy(&b[9..12]).parse().unwrap_or(-1)
	} else if b.is_empty() {
		0
	} else {
		-1
	}
}

fn tls_client(t: TcpStream, q: Receiver<Op>) {
	let raw = t.try_clone().expect("clone");
	let _ = raw.set_read_timeout(Some(Duration::from_secs(5)));
	let mut t = Some(t);
	let mut c: Option<native_tls::TlsStream<TcpStream>> = None;
	let con = TlsConnector::builder().danger_accept_invalid_certs(true).danger_accept_invalid_hostnames(true).build().expect("connector");
	for op in q {
		if let Op::Hello | Op::Send(_) = op {
			if c.is_none() {
				if let Some(x) = t.take() {
					c = con.connect("localhost", x).ok();
				}
			}
		}
		match op {
			Op::Hello => {}
			Op::Send(b) => {
				if let Some(c) = &mut c {
					let _ = c.write_all(&b);
					let _ = c.flush();
				}
			}
			Op::Raw(b) => {
				let _ = (&raw).write_all(&b);
			}
			Op::How(h) => match h.as_str() {
				"fin" => {
					let _ = raw.shutdown(Shutdown::Write);
				}
				"notify" => {
					if let Some(c) = &mut c {
						let _ = c.shutdown();
					}
					let _ = raw.shutdown(Shutdown::Write);
				}
				_ => {
					if h == "reset" {
						reset_on_close(&raw);
					}
					return;
				}
			},
			Op::Read(tx) => {
				let _ = tx.send(match &mut c {
					Some(c) => code_of(c),
					None => 0,
				});
			}
		}
	}
}

macro_rules! sync_item {
	($r:expr, $addr:expr) => {
		match $r {
			Ok(u) => {
				let addr = $addr(&u.stream);
				let uri = path_no(&u.request.subject.1);
				let i = Item { ok: true, addr, uri, end: false, why: "" };
				(i, u.accept().ok().map(|c| Box::new(c) as Box<dyn std::any::Any>))
			}
			Err(e) => (
				Item {
					ok: false,
					addr: e.stream.as_ref().and_then(|x| $addr(x)),
					uri: e.parsed.as_ref().map(|p| path_no(&p.subject.1)).unwrap_or(0),
					end: false,
					why: why(&e.error),
				},
				None,
			),
		}
	};
}

fn paddr(t: &TcpStream) -> Option<SocketAddr> {
	t.peer_addr().ok()
}
fn taddr(t: &native_tls::TlsStream<TcpStream>) -> Option<SocketAddr> {
	t.get_ref().peer_addr().ok()
}

fn send_sync(it: (Item, Option<Box<dyn std::any::Any>>), keep: &mut Vec<Box<dyn std::any::Any>>, tx: &Sender<Item>) {
	if let Some(c) = it.1 {
		keep.push(c)
	}
	let _ = tx.send(it.0);
}

pub fn run_server(sc: &J) {
	let mode = sc.s("mode").to_string();
	let secure = mode.contains("tls");
	let blocking = sc.b("blocking");
	let total: usize = sc.a("ops").iter().filter(|o| o.s("o") == "conn").map(|o| o.n_or("n", 1) as usize).sum();
	let (tx, rx) = channel::<Item>();
	let (atx, arx) = channel::<SocketAddr>();
	let stop = Arc::new(AtomicBool::new(false));
	let stop2 = stop.clone();
	let acceptor = || TlsAcceptor::new(identity("good")).expect("acceptor");
	let mut nb: Option<websocket::sync::Server<websocket::server::NoTlsAcceptor>> = None;
	let mut keep_nb: Vec<Box<dyn std::any::Any>> = vec![];
	match mode.as_str() {
		"sync-nb" => {
			let sv = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
			sv.set_nonblocking(true).unwrap();
			atx.send(sv.local_addr().unwrap()).unwrap();
			nb = Some(sv);
		}
		"sync" | "sync-iter" | "sync-clone" => {
			thread::spawn(move || {
				let mut sv = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
				atx.send(sv.local_addr().unwrap()).unwrap();
				let mut other = sv.try_clone().unwrap();
				let mut keep = vec![];
				for k in 0..total {
					let r = match mode.as_str() {
						"sync" => sv.accept(),
						"sync-iter" => match sv.next() {
							Some(r) => r,
							None => {
								let _ = tx.send(Item { ok: false, addr: None, uri: 0, end: true, why: "end" });
								break;
							}
						},
						_ => {
							if k % 2 == 0 {
								other.accept()
							} else {
								sv.accept()
							}
						}
					};
					send_sync(sync_item!(r, paddr), &mut keep, &tx);
				}
				while !stop2.load(Ordering::SeqCst) {
					thread::sleep(Duration::from_millis(2));
				}
			});
		}
		"sync-tls" | "sync-tls-iter" => {
			let a = acceptor();
			thread::spawn(move || {
				let mut sv = websocket::sync::Server::bind_secure("127.0.0.1:0", a).unwrap();
				atx.send(sv.local_addr().unwrap()).unwrap();
				let mut keep = vec![];
				for _ in 0..total {
					let r = if mode == "sync-tls" {
						sv.accept()
					} else {
						match sv.next() {
							Some(r) => r,
							None => {
								let _ = tx.send(Item { ok: false, addr: None, uri: 0, end: true, why: "end" });
								break;
							}
						}
					};
					send_sync(sync_item!(r, taddr), &mut keep, &tx);
				}
				while !stop2.load(Ordering::SeqCst) {
					thread::sleep(Duration::from_millis(2));
				}
			});
		}
		_ => {
			// asynchronous: plain, from a blocking server, or TLS
			thread::spawn(move || {
				let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
				let h = tokio::reactor::Handle::default();
				let (stx, srx) = futures::sync::oneshot::channel::<()>();
				thread::spawn(move || {
					while !stop2.load(Ordering::SeqCst) {
						thread::sleep(Duration::from_millis(2));
					}
					let _ = stx.send(());
				});
				let keep: Arc<Mutex<Vec<Box<dyn std::any::Any>>>> = Default::default();
				macro_rules! serve {
					($inc:expr, $addr:expr) => {{
						let (keep, tx2) = (keep.clone(), tx.clone());
						let f = $inc
							.then(move |r| {
								let mut it = Item { ok: false, addr: None, uri: 0, end: false, why: "" };
								match r {
									Ok((u, a)) => {
										it.ok = true;
										it.addr = Some(a);
										it.uri = path_no(&u.request.subject.1);
										let keep = keep.clone();
										tokio::runtime::current_thread::spawn(u.accept().then(move |c| {
											if let Ok(c) = c {
												keep.lock().unwrap().push(Box::new(c));
											}
											Ok(())
										}));
									}
									Err(e) => {
										it.addr = e.stream.as_ref().and_then($addr);
										it.uri = e.parsed.as_ref().map(|p| path_no(&p.subject.1)).unwrap_or(0);
									}
								}
								let _ = tx2.send(it);
								Ok::<(), ()>(())
							})
							.for_each(|_| Ok(()))
							.then(move |_| {
								let _ = tx.send(Item { ok: false, addr: None, uri: 0, end: true, why: "end" });
								Ok::<(), ()>(())
							})
							.select2(srx);
						let _ = rt.block_on(f);
					}};
				}
				match mode.as_str() {
					"async-tls" => {
						let sv = websocket::r#async::Server::bind_secure("127.0.0.1:0", acceptor(), &h).unwrap();
						atx.send(sv.local_addr().unwrap()).unwrap();
						serve!(sv.incoming(), |x| x.get_ref().get_ref().peer_addr().ok())
					}
					"into-async" => {
						let sv = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
						// clients may already be waiting when the server is converted
						atx.send(sv.local_addr().unwrap()).unwrap();
						thread::sleep(Duration::from_millis(10));
						let sv = sv.into_async(&h).unwrap();
						serve!(sv.incoming(), |x| x.peer_addr().ok())
					}
					_ => {
						let sv = websocket::r#async::Server::bind("127.0.0.1:0", &h).unwrap();
						atx.send(sv.local_addr().unwrap()).unwrap();
						serve!(sv.incoming(), |x| x.peer_addr().ok())
					}
				}
			});
		}
	}
	let addr = arx.recv().expect("address");
	let mut cs: Vec<Cli> = vec![];
	let mut local: Vec<SocketAddr> = vec![];
	let mut decided: Vec<bool> = vec![];
	let mut how: Vec<String> = vec![];
	let mut oks: Vec<usize> = vec![];
	let mut answered: Vec<usize> = vec![];
	let mut got = 0;
	let log_item = |i: &Item, local: &[SocketAddr]| -> Option<usize> {
		if i.end {
			emit(obj! {"k" => s("ended")});
			return None;
		}
		let c = i.addr.and_then(|a| local.iter().position(|l| *l == a)).map(|p| p + 1).unwrap_or(0);
		emit(obj! {"k" => s("item"), "r" => s(if i.ok { "ok" } else { "err" }), "c" => n(c as i64), "u" => n(i.uri)});
		Some(if c > 0 { c } else { i.uri as usize })
	};
	for o in sc.a("ops") {
		let c = (o.n("c") as usize).wrapping_sub(1);
		match o.s("o") {
			"conn" => {
				let k = o.n_or("n", 1);
				emit(obj! {"k" => s("conn"), "n" => n(k)});
				for _ in 0..k {
					let t = TcpStream::connect(addr).expect("connect");
					let _ = t.set_nodelay(true);
					let _ = t.set_read_timeout(Some(Duration::from_secs(5)));
					let la = t.local_addr().unwrap();
					local.push(la);
					decided.push(false);
					how.push("open".into());
					if secure {
						let (qtx, qrx) = channel();
						thread::spawn(move || tls_client(t, qrx));
						cs.push(Cli::Tls(qtx, la));
					} else {
						cs.push(Cli::Plain(Some(t)));
					}
				}
			}
			"hello" => {
				emit(obj! {"k" => s("tls"), "c" => n(c as i64 + 1)});
				if let Cli::Tls(q, _) = &cs[c] {
					let _ = q.send(Op::Hello);
				}
			}
			"part" | "good" | "bad" => {
				let raw = o.get("raw").unwrap().bytes();
				emit(obj! {"k" => s("send"), "c" => n(c as i64 + 1), "raw" => J::from_bytes(&raw)});
				match &mut cs[c] {
					Cli::Tls(q, _) => {
						let _ = q.send(Op::Send(raw));
					}
					Cli::Plain(Some(t)) => {
						let _ = t.write_all(&raw);
					}
					_ => {}
				}
				if o.s("o") != "part" {
					decided[c] = true;
				}
			}
			"garbage" => {
				emit(obj! {"k" => s("garbage"), "c" => n(c as i64 + 1)});
				if let Cli::Tls(q, _) = &cs[c] {
					let _ = q.send(Op::Raw(o.get("raw").unwrap().bytes()));
				}
				decided[c] = true;
			}
			"fin" | "close" | "reset" | "notify" => {
				emit(obj! {"k" => s("how"), "c" => n(c as i64 + 1), "how" => s(if o.s("o") == "reset" { "reset" } else { "fin" })});
				how[c] = o.s("o").to_string();
				decided[c] = true;
				match &mut cs[c] {
					Cli::Tls(q, _) => {
						let _ = q.send(Op::How(o.s("o").to_string()));
					}
					Cli::Plain(x) => match o.s("o") {
						"fin" | "notify" => {
							if let Some(t) = x {
								let _ = t.shutdown(Shutdown::Write);
							}
						}
						"reset" => {
							if let Some(t) = x.take() {
								reset_on_close(&t);
							}
						}
						_ => *x = None,
					},
				}
			}
			"sleep" => thread::sleep(Duration::from_millis(o.n("ms") as u64)),
			"closeall" => {
				emit(obj! {"k" => s("closeall")});
				for i in 0..cs.len() {
					decided[i] = true;
					if how[i] == "open" {
						how[i] = "close".into();
						match &mut cs[i] {
							Cli::Tls(q, _) => {
								let _ = q.send(Op::How("close".into()));
							}
							Cli::Plain(x) => *x = None,
						}
					}
				}
			}
			_ => {
				// settle: give the server the time to say all it owes
				let want = if blocking { decided.iter().take_while(|d| **d).count() } else { decided.iter().filter(|d| **d).count() };
				let t0 = Instant::now();
				let limit = Duration::from_secs(6);
				if let Some(sv) = &mut nb {
					while got < want && t0.elapsed() < limit {
						let (i, k) = sync_item!(sv.accept(), paddr);
						if !i.ok && i.why == "block" && i.addr.is_none() {
							thread::sleep(Duration::from_millis(1));
							continue;
						}
						if let Some(k) = k {
							keep_nb.push(k);
						}
						got += 1;
						if let Some(c) = log_item(&i, &local) {
							oks.push(c);
						}
					}
					if want == cs.len() && got == want {
						let (i, _) = sync_item!(sv.accept(), paddr);
						if !i.ok && i.why == "block" {
							emit(obj! {"k" => s("idle")});
						} else {
							log_item(&i, &local);
						}
					}
				} else {
					while got < want && t0.elapsed() < limit {
						if let Ok(i) = rx.recv_timeout(Duration::from_millis(100)) {
							got += 1;
							if let Some(c) = log_item(&i, &local) {
								oks.push(c);
							}
							if i.end {
								break;
							}
						}
					}
					if o.b("linger") {
						thread::sleep(Duration::from_millis(15));
					}
					while let Ok(i) = rx.try_recv() {
						got += 1;
						if let Some(c) = log_item(&i, &local) {
							oks.push(c);
						}
					}
				}
				emit(obj! {"k" => s("settle")});
				for &c in &oks {
					if c == 0 || c > cs.len() || answered.contains(&c) || !(how[c - 1] == "open" || how[c - 1] == "fin") {
						continue;
					}
					answered.push(c);
					let code = match &mut cs[c - 1] {
						Cli::Tls(q, _) => {
							let (t, r) = channel();
							let _ = q.send(Op::Read(t));
							r.recv_timeout(Duration::from_secs(6)).unwrap_or(-2)
						}
						Cli::Plain(Some(t)) => code_of(t),
						_ => continue,
					};
					emit(obj! {"k" => s("resp"), "c" => n(c as i64), "code" => n(code)});
				}
			}
		}
	}
	stop.store(true, Ordering::SeqCst);
}
