//! Two endpoints: in memory (what one API sends is given to another API), over loopback TCP with real
//! handshakes, and a connection under test against a raw peer that the scenario drives step by step.
use crate::json::{n, s, J};
use crate::mock::*;
use crate::recv::{self, err_name};
use crate::send;
use crate::util::*;
use futures::{Future, Sink, Stream};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::thread;
use std::time::Duration;
use websocket::client::sync::Client;
use websocket::receiver::Reader;
use websocket::result::WebSocketError;
use websocket::sender::Writer;
use websocket::server::upgrade::sync::IntoWs;
use websocket::{ClientBuilder, OwnedMessage};

pub fn run_pipe(sc: &J) {
	let wr = Wr::new(Default::default());
	let sapi = sc.s("sapi");
	let data = match sapi {
		"mcodec" | "msgcodec" | "dcodec" | "aacc" | "aconn" | "paircodec" => {
			let base = send::run_async_into(sc, sapi, &wr);
			wr.taken()[base..].to_vec()
		}
		_ => {
			let base = send::run_sync_into(sc, sapi, &wr);
			wr.taken()[base..].to_vec()
		}
	};
	emit(obj! {"k" => s("sent"), "n" => n(data.len() as i64)});
	recv::run_data(sc, data);
}

fn ev_msg(k: &str, d: i64, m: &OwnedMessage) -> J {
	let (t, c, p) = msg_fields(m);
	obj! {"k" => s(k), "d" => n(d), "t" => n(t), "code" => n(c), "p" => p}
}
fn ev_end(d: i64, e: &WebSocketError) -> J {
	obj! {"k" => s("end"), "d" => n(d), "e" => J::S(err_name(e))}
}

/// a blocking endpoint on a live connection: `out` is the direction it sends in
fn drive_sync(c: Client<TcpStream>, mode: &str, msgs: Vec<OwnedMessage>, expect: usize, out: i64) -> Vec<J> {
	c.stream_ref().set_read_timeout(Some(Duration::from_secs(15))).unwrap();
	let inn = 1 - out;
	let mut ev = vec![];
	match mode {
		"echo" => {
			// the server side answers everything it gets
			let mut c = c;
			loop {
				match c.recv_message() {
					Ok(m) => {
						ev.push(ev_msg("recv", inn, &m));
						if ev.len() > 100_000 {
							break;
						}
						ev.push(ev_msg("send", out, &m));
						if let Err(e) = c.send_message(&m) {
							ev.push(obj! {"k" => s("senderr"), "d" => n(out), "e" => J::S(err_name(&e))});
							break;
						}
					}
					Err(e) => {
						ev.push(ev_end(inn, &e));
						break;
					}
				}
			}
		}
		"ask" => {
			let mut c = c;
			for m in msgs {
				ev.push(ev_msg("send", out, &m));
				if let Err(e) = c.send_message(&m) {
					ev.push(obj! {"k" => s("senderr"), "d" => n(out), "e" => J::S(err_name(&e))});
					break;
				}
				match c.recv_message() {
					Ok(m) => ev.push(ev_msg("recv", inn, &m)),
					Err(e) => {
						ev.push(ev_end(inn, &e));
						break;
					}
				}
			}
			let _ = c.shutdown_sender();
			match c.recv_message() {
				Ok(m) => ev.push(ev_msg("recv", inn, &m)),
				Err(e) => ev.push(ev_end(inn, &e)),
			}
		}
		_ => {
			let (mut r, mut w) = c.split().unwrap();
			let ms = msgs;
			let h = thread::spawn(move || {
				let mut ev = vec![];
				for m in ms {
					ev.push(ev_msg("send", out, &m));
					if let Err(e) = w.send_message(&m) {
						ev.push(obj! {"k" => s("senderr"), "d" => n(out), "e" => J::S(err_name(&e))});
						break;
					}
				}
				(w, ev)
			});
			for _ in 0..expect {
				match r.recv_message() {
					Ok(m) => ev.push(ev_msg("recv", inn, &m)),
					Err(e) => {
						ev.push(ev_end(inn, &e));
						break;
					}
				}
			}
			let (w, e2) = h.join().unwrap();
			ev.extend(e2);
			let _ = w.shutdown();
			loop {
				match r.recv_message() {
					Ok(m) => ev.push(ev_msg("recv", inn, &m)),
					Err(e) => {
						ev.push(ev_end(inn, &e));
						break;
					}
				}
				if ev.len() > 100_000 {
					break;
				}
			}
		}
	}
	ev
}

type AClient = websocket::r#async::Client<websocket::r#async::TcpStream>;

fn drive_async(c: AClient, msgs: Vec<OwnedMessage>, expect: usize, out: i64, echo: bool) -> Box<dyn Future<Item = Vec<J>, Error = ()> + Send> {
	let inn = 1 - out;
	let (sink, stream) = c.split();
	if echo {
		let ev = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
		let e2 = ev.clone();
		let f = stream
			.map(move |m| {
				let mut v = e2.lock().unwrap();
				v.push(ev_msg("recv", inn, &m));
				v.push(ev_msg("send", out, &m));
				m
			})
			.forward(sink);
		return Box::new(f.then(move |r| {
			let mut v = ev.lock().unwrap().clone();
			match r {
				Ok(_) => v.push(obj! {"k" => s("end"), "d" => n(inn), "e" => s("")}),
				Err(e) => v.push(ev_end(inn, &e)),
			}
			Ok(v)
		}));
	}
	let mut sev: Vec<J> = msgs.iter().map(|m| ev_msg("send", out, m)).collect();
	let sending = sink
		.send_all(futures::stream::iter_ok::<_, WebSocketError>(msgs))
		.map(|(sink, _)| sink)
		.then(move |r| {
			if let Err(e) = &r {
				sev.push(obj! {"k" => s("senderr"), "d" => n(out), "e" => J::S(err_name(e))});
			}
			Ok::<_, ()>((r.ok(), sev))
		});
	let receiving = stream.take(expect as u64).collect().then(move |r| {
		Ok::<_, ()>(match r {
			Ok(ms) => {
				let short = ms.len() < expect;
				let mut ev: Vec<J> = ms.iter().map(|m| ev_msg("recv", inn, m)).collect();
				if short {
					ev.push(obj! {"k" => s("end"), "d" => n(inn), "e" => s("")});
				}
				ev
			}
			Err(e) => vec![ev_end(inn, &e)],
		})
	});
	Box::new(sending.join(receiving).map(|((sink, mut a), b)| {
		drop(sink);
		a.extend(b);
		a
	}))
}

pub fn run_tcp(sc: &J) {
	let cli = sc.s("client").to_string();
	let srv = sc.s("server").to_string();
	let c2s: Vec<OwnedMessage> = sc.a("c2s").iter().map(mk_owned).collect();
	let s2c: Vec<OwnedMessage> = sc.a("s2c").iter().map(mk_owned).collect();
	let (nc, ns) = (c2s.len(), s2c.len());
	let echo = sc.b("echo");
	let (ptx, prx) = std::sync::mpsc::channel();
	let srv2 = srv.clone();
	let server = thread::spawn(move || -> Vec<J> {
		if srv2 == "sync" {
			let mut s = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
			ptx.send(s.local_addr().unwrap().port()).unwrap();
			let c = s.accept().ok().expect("upgrade").accept().ok().expect("accept");
			drive_sync(c, if echo { "echo" } else { "full" }, s2c, nc, 1)
		} else {
			let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
			let sv = websocket::r#async::Server::bind("127.0.0.1:0", &tokio::reactor::Handle::default()).unwrap();
			ptx.send(sv.local_addr().unwrap().port()).unwrap();
			let f = sv
				.incoming()
				.into_future()
				.map_err(|_| ())
				.and_then(|(x, _)| x.unwrap().0.accept().map_err(|_| ()))
				.and_then(move |(c, _)| drive_async(c, s2c, nc, 1, echo));
			rt.block_on(f).unwrap_or_else(|_| vec![obj! {"k" => s("handshake"), "d" => n(1)}])
		}
	});
	let port = prx.recv().unwrap();
	let url = format!("ws://127.0.0.1:{}/chat", port);
	let mut ev = if cli == "sync" {
		let c = ClientBuilder::new(&url).unwrap().connect_insecure();
		match c {
			Ok(c) => drive_sync(c, if echo { "ask" } else { "full" }, c2s, ns, 0),
			Err(e) => vec![obj! {"k" => s("handshake"), "d" => n(0), "e" => J::S(err_name(&e))}],
		}
	} else {
		let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
		let f = ClientBuilder::new(&url).unwrap().async_connect_insecure().map_err(|_| ()).and_then(move |(c, _)| {
			if echo {
				// everything goes out, everything comes back
				drive_async(c, c2s, nc, 0, false)
			} else {
				drive_async(c, c2s, ns, 0, false)
			}
		});
		rt.block_on(f).unwrap_or_else(|_| vec![obj! {"k" => s("handshake"), "d" => n(0)}])
	};
	let sev = match server.join() {
		Ok(v) => v,
		Err(_) => vec![obj! {"k" => s("panic"), "op" => s("server")}],
	};
	ev.extend(sev);
	// sends of a direction happen before the matching receives: put them first
	let (a, b): (Vec<J>, Vec<J>) = ev.into_iter().partition(|e| e.s("k") == "send");
	for e in a.into_iter().chain(b) {
		emit(e);
	}
}

// --------------------------------------------------------------------------- duplex script
enum A {
	Whole(Client<TcpStream>),
	Split(Option<Reader<TcpStream>>, Option<Writer<TcpStream>>),
	Gone,
}

fn read_head(s: &mut TcpStream) -> Vec<u8> {
	let mut v = vec![];
	let mut b = [0u8; 1];
	while !v.ends_with(b"\r\n\r\n") {
		match s.read(&mut b) {
			Ok(1) => v.push(b[0]),
			_ => break,
		}
	}
	v
}

/// one frame from the raw peer's side
fn read_frame(s: &mut TcpStream) -> (String, Vec<u8>) {
	let mut v = vec![];
	let mut need = 2;
	let mut stage = 0;
	loop {
		while v.len() < need {
			let mut b = vec![0u8; need - v.len()];
			match s.read(&mut b) {
				Ok(0) => return (if v.is_empty() { "eof" } else { "cut" }.into(), v),
				Ok(k) => v.extend_from_slice(&b[..k]),
				Err(e) => {
					let k = match e.kind() {
						std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => "to",
						_ => "err",
					};
					return (k.into(), v);
				}
			}
		}
		let ext = match v[1] & 0x7f {
			126 => 2,
			127 => 8,
			_ => 0,
		};
		let hl = 2 + ext + if v[1] & 0x80 != 0 { 4 } else { 0 };
		if stage == 0 {
			need = hl;
			stage = 1;
			continue;
		}
		if stage == 1 {
			let mut len = (v[1] & 0x7f) as usize;
			if ext > 0 {
				len = 0;
				for i in 0..ext {
					len = len << 8 | v[2 + i] as usize;
				}
			}
			need = hl + std::cmp::min(len, 1 << 24);
			stage = 2;
			continue;
		}
		return ("frame".into(), v);
	}
}

pub fn run_duplex(sc: &J) {
	let l = TcpListener::bind("127.0.0.1:0").unwrap();
	let addr = l.local_addr().unwrap();
	let role = sc.s("role").to_string();
	let lim = if sc.b("lim") { Some((sc.limit("maxf"), sc.limit("maxm"))) } else { None };
	let pre = sc.get("pre").map(|p| p.bytes()).unwrap_or_default();
	let role2 = role.clone();
	let a = thread::spawn(move || -> Client<TcpStream> {
		let st = TcpStream::connect(addr).unwrap();
		st.set_nodelay(true).unwrap();
		if role2 == "server" {
			let u = IntoWs::into_ws(st).ok().expect("upgrade");
			match lim {
				Some((f, m)) => u.accept_with_limits(f, m).ok().expect("accept"),
				None => u.accept().ok().expect("accept"),
			}
		} else {
			let mut b = ClientBuilder::new("ws://h/chat").unwrap().key(*send::KEY);
			if let Some((f, m)) = lim {
				b = b.max_dataframe_size(f).max_message_size(m);
			}
			b.connect_on(st).expect("connect")
		}
	});
	let mut b = l.accept().unwrap().0;
	b.set_nodelay(true).unwrap();
	b.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
	if role == "server" {
		let mut v = send::REQ.to_vec();
		v.extend_from_slice(&pre);
		b.write_all(&v).unwrap();
		read_head(&mut b);
	} else {
		read_head(&mut b);
		let mut v = send::RESP.to_vec();
		v.extend_from_slice(&pre);
		b.write_all(&v).unwrap();
	}
	let a = a.join().expect("handshake");
	// the receive timeout belongs to the socket, whoever holds it: long where something has to come
	let sock = a.stream_ref().try_clone().unwrap();
	for it in sc.a("preitems") {
		emit(obj! {"k" => s("pre"), "h" => it.get("h").unwrap().clone(), "p" => it.get("p").unwrap().clone()});
	}
	let mut a = A::Whole(a);
	let io = |r: std::io::Result<()>| s(if r.is_ok() { "ok" } else { "err" });
	for op in sc.a("ops") {
		let o = op.s("o").to_string();
		let mut e = obj! {"k" => J::S(o.clone())};
		let t = Some(Duration::from_millis(if op.b("wait") { 8000 } else { 30 }));
		match o.as_str() {
			"arecv" => sock.set_read_timeout(t).unwrap(),
			"bread" => b.set_read_timeout(t).unwrap(),
			_ => {}
		}
		match o.as_str() {
			"asend" => {
				e.set("a", op.get("a").unwrap().clone());
				let arg = op.get("a").unwrap();
				let r = match &mut a {
					A::Whole(c) => {
						if arg.s("o") == "df" {
							c.send_dataframe(&send::mk_df(arg))
						} else {
							c.send_message(&mk_owned(arg))
						}
					}
					A::Split(_, Some(w)) => {
						if arg.s("o") == "df" {
							w.send_dataframe(&send::mk_df(arg))
						} else {
							w.send_message(&mk_owned(arg))
						}
					}
					_ => Ok(()),
				};
				e.set("r", s(if r.is_ok() { "ok" } else { "err" }));
			}
			"arecv" => {
				let (had, r) = (0, match &mut a {
					A::Whole(c) => c.recv_message(),
					A::Split(Some(r), _) => r.recv_message(),
					_ => Err(WebSocketError::NoDataAvailable),
				});
				let _ = had;
				match r {
					Ok(m) => {
						let (t, c, p) = msg_fields(&m);
						e.set("r", s("msg"));
						e.set("t", n(t));
						e.set("code", n(c));
						e.set("p", p);
					}
					Err(WebSocketError::NoDataAvailable) => e.set("r", s("end")),
					Err(WebSocketError::IoError(x))
						if x.kind() == std::io::ErrorKind::WouldBlock || x.kind() == std::io::ErrorKind::TimedOut =>
					{
						e.set("r", s("to"))
					}
					Err(x) => {
						e.set("r", s("err"));
						e.set("e", J::S(err_name(&x)));
					}
				}
			}
			"split" => {
				a = match std::mem::replace(&mut a, A::Gone) {
					A::Whole(c) => {
						let (r, w) = c.split().unwrap();
						A::Split(Some(r), Some(w))
					}
					x => x,
				};
			}
			"ashutw" => e.set("r", match &a {
				A::Whole(c) => io(c.shutdown_sender()),
				A::Split(_, Some(w)) => io(w.shutdown()),
				_ => s("ok"),
			}),
			"ashutr" => e.set("r", match &a {
				A::Whole(c) => io(c.shutdown_receiver()),
				A::Split(Some(r), _) => io(r.shutdown()),
				_ => s("ok"),
			}),
			"ashutall" => e.set("r", match &a {
				A::Whole(c) => io(c.shutdown()),
				A::Split(Some(r), w) if op.s("via") == "reader" || w.is_none() => io(r.shutdown_all()),
				A::Split(_, Some(w)) => io(w.shutdown_all()),
				_ => s("ok"),
			}),
			// letting go of one half must not disturb the other
			"dropw" => {
				if let A::Split(_, w) = &mut a {
					*w = None;
				}
			}
			"dropr" => {
				if let A::Split(r, _) = &mut a {
					*r = None;
				}
			}
			"bsend" => {
				e.set("h", op.get("h").unwrap().clone());
				e.set("p", op.get("p").unwrap().clone());
				e.set("r", io(b.write_all(&item_bytes(op)[op.n_or("from", 0) as usize..])));
			}
			"bread" => {
				let (k, v) = read_frame(&mut b);
				e.set("r", J::S(k));
				e.set("w", parse_frames(&v));
			}
			"bshutw" => e.set("r", io(b.shutdown(Shutdown::Write))),
			_ => {}
		}
		emit(e);
	}
}
