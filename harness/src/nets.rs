//! Whole servers, on real sockets, against one scripted client: what accept and incoming hand out, and the
//! same account afterwards as for scripted transports.
use crate::hs::*;
use crate::json::{n, s, J};
use crate::mock::*;
use crate::netc::messages;
use crate::server::identity;
use crate::util::*;
use futures::Stream as _;
use native_tls::{TlsAcceptor, TlsConnector};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use websocket::r#async::Server as AServer;
use websocket::server::NoTlsAcceptor;
use websocket::sync::Server;

const CRLF2: &[u8] = b"\r\n\r\n";
fn head_len(raw: &[u8]) -> usize {
	(0..raw.len()).find(|i| raw[..*i].ends_with(CRLF2)).or(if raw.ends_with(CRLF2) { Some(raw.len()) } else { None }).unwrap_or(0)
}

/// says all it has to say, and then takes what comes
fn speak<C: Read + Write>(c: &mut C, raw: &[u8], chunks: &[usize], pause: u64, done: &mut dyn FnMut(&mut C), wr: &Wr) {
	let mut at = 0;
	if pause > 0 {
		// a client that takes its time: within its request, and again before its first message
		let h = head_len(raw);
		at = h;
		let _ = c.write_all(&raw[..h / 2]).and_then(|_| c.flush());
		std::thread::sleep(Duration::from_millis(pause));
		let _ = c.write_all(&raw[h / 2..h]).and_then(|_| c.flush());
		let mut b = [0u8; 1];
		while !wr.taken().ends_with(CRLF2) {
			match c.read(&mut b) {
				Ok(1) => wr.0.lock().unwrap().out.push(b[0]),
				_ => break,
			}
		}
		std::thread::sleep(Duration::from_millis(pause));
	}
	for k in chunks {
		let to = std::cmp::min(raw.len(), at + k);
		if to > at {
			if c.write_all(&raw[at..to]).and_then(|_| c.flush()).is_err() {
				break;
			}
			at = to;
			std::thread::sleep(Duration::from_micros(300));
		}
	}
	if at < raw.len() {
		let _ = c.write_all(&raw[at..]).and_then(|_| c.flush());
	}
	done(c);
	let mut b = [0u8; 512];
	while let Ok(k) = c.read(&mut b) {
		if k == 0 {
			break;
		}
		wr.0.lock().unwrap().out.extend_from_slice(&b[..k]);
	}
}

fn client(a: SocketAddr, tls: bool, raw: Vec<u8>, chunks: Vec<usize>, pause: u64, wr: Wr) {
	let t = match TcpStream::connect(a) {
		Ok(t) => t,
		Err(_) => return,
	};
	let _ = t.set_nodelay(true);
	let _ = t.set_read_timeout(Some(Duration::from_secs(8)));
	if tls {
		let con = TlsConnector::builder().danger_accept_invalid_certs(true).danger_accept_invalid_hostnames(true).build().expect("connector");
		let raw_t = t.try_clone().expect("clone");
		if let Ok(mut c) = con.connect("localhost", t) {
			speak(
				&mut c,
				&raw,
				&chunks,
				pause,
				&mut |c| {
					let _ = c.shutdown();
					let _ = raw_t.shutdown(Shutdown::Write);
				},
				&wr,
			);
		}
	} else {
		let mut t = t;
		speak(&mut t, &raw, &chunks, pause, &mut |t: &mut TcpStream| drop(t.shutdown(Shutdown::Write)), &wr);
	}
}

pub fn run(sc: &J) {
	let mode = sc.s("net");
	let raw = sc.get("raw").map(|x| x.bytes()).unwrap_or_default();
	let head = head_len(&raw);
	let mut sr = Src::new(raw.clone(), VecDeque::new());
	sr.eof_seen = true;
	let src = Arc::new(Mutex::new(sr));
	let wr = Wr::new(VecDeque::new());
	count_memory();
	remote_out(true);
	let chunks: Vec<usize> = sc.a("chunks").iter().map(|x| x.num() as usize).collect();
	let go = |a: SocketAddr| {
		let (raw, chunks, wr, tls) = (raw.clone(), chunks.clone(), wr.clone(), mode.contains("tls"));
		let pause = sc.n_or("pause", 0) as u64;
		std::thread::spawn(move || client(a, tls, raw, chunks, pause, wr))
	};
	let acceptor = || TlsAcceptor::new(identity("good")).expect("acceptor");
	let all = raw.len();
	// how much of the stream has been taken off the transport
	let at = |c: usize| src.lock().unwrap().pos = c;

	macro_rules! refused {
		($e:expr, $left:expr, $read:expr) => {{
			let er = $e;
			let mut e = obj! {"k" => s("hs"), "r" => s("invalid"), "why" => s(why(&er.error)), "req" => J::B(er.parsed.is_some())};
			match &er.parsed {
				Some(q) => req_fields(&mut e, &q.subject.0, &q.subject.1, q.version, &q.headers),
				None => no_req(&mut e),
			}
			let left: Vec<u8> = er.buffer.map($left).unwrap_or_default();
			e.set("left", J::from_bytes(&left));
			match er.stream {
				None => emit(obj! {"k" => s("nostream"), "why" => s(why(&er.error))}),
				Some(st) => {
					let r: Vec<u8> = $read(st);
					at(all - std::cmp::min(all, r.len()));
					io_fields(&mut e, &src, &wr);
					emit(e);
					left_event("back", &left, r, src.lock().unwrap().pos as i64, &wr);
				}
			}
		}};
	}
	macro_rules! offered {
		($u:ident, $left:expr) => {{
			let left: Vec<u8> = $left;
			let mut e = obj! {"k" => s("hs"), "r" => s("upgrade"), "why" => s(""), "req" => J::B(true)};
			req_fields(&mut e, &$u.request.subject.0, &$u.request.subject.1, $u.request.version, &$u.request.headers);
			upgrade_fields(&mut e, &$u);
			at(head + left.len());
			e.set("left", J::from_bytes(&left));
			io_fields(&mut e, &src, &wr);
			emit(e);
			if sc.s("act").starts_with("accept") && !matches!(sc.s("then"), "into") {
				at(all);
			}
		}};
	}
	macro_rules! sync {
		($sv:ident, $take:expr, $use:expr) => {{
			let th = go($sv.local_addr().unwrap());
			let sv = &mut $sv;
			let r = $take(sv);
			match r {
				Ok(u) => {
					offered!(u, u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default());
					if let Some(c) = act_sync(u, sc, &src, &wr) {
						$use(c)
					}
				}
				Err(er) => refused!(er, |b| b.buf[b.pos..b.cap].to_vec(), |mut st| rest(&mut st)),
			}
			let _ = th.join();
		}};
	}
	macro_rules! asy {
		($rt:ident, $sv:expr) => {{
			let sv = $sv;
			let th = go(sv.local_addr().unwrap());
			let mut keep = vec![];
			match $rt.block_on(sv.incoming().into_future()) {
				Ok((None, _)) => emit(obj! {"k" => s("serverend")}),
				Ok((Some((u, _)), more)) => {
					keep.push(more);
					offered!(u, u.buffer.to_vec());
					match act_async(&mut $rt, u, sc, &src, &wr) {
						Some(f) if sc.s("then") == "into" => {
							emit(obj! {"k" => s("ws")});
							let mut f = f;
							for _ in 0..sc.n_or("k", 0) {
								match $rt.block_on(f.into_future()) {
									Ok((_, g)) => f = g,
									Err((_, g)) => {
										f = g;
										break;
									}
								}
							}
							let p = f.into_parts();
							let r = aread(&mut $rt, p.io);
							left_event("left", &p.read_buf, r, 0, &wr);
						}
						Some(f) => messages(&mut $rt, f, sc.s("then"), &src),
						None => {}
					}
				}
				Err((er, more)) => {
					keep.push(more);
					refused!(er, |b| b.to_vec(), |st| aread(&mut $rt, st))
				}
			}
			let _ = th.join();
		}};
	}
	match mode {
		"sync" => {
			let mut sv = Server::bind("127.0.0.1:0").unwrap();
			sync!(sv, |sv: &mut Server<NoTlsAcceptor>| sv.accept(), |c| if sc.s("then") == "split" { use_split(c, sc, &src) } else { use_client(c, sc, &src, &wr) })
		}
		"sync-iter" => {
			let mut sv = Server::bind("127.0.0.1:0").unwrap();
			sync!(sv, |sv: &mut Server<NoTlsAcceptor>| sv.next().expect("a server does not end"), |c| if sc.s("then") == "split" { use_split(c, sc, &src) } else { use_client(c, sc, &src, &wr) })
		}
		"sync-clone" => {
			let sv0 = Server::bind("127.0.0.1:0").unwrap();
			let mut sv = sv0.try_clone().unwrap();
			drop(sv0);
			sync!(sv, |sv: &mut Server<NoTlsAcceptor>| sv.accept(), |c| if sc.s("then") == "split" { use_split(c, sc, &src) } else { use_client(c, sc, &src, &wr) })
		}
		"sync-tls" => {
			let mut sv = Server::bind_secure("127.0.0.1:0", acceptor()).unwrap();
			sync!(sv, |sv: &mut Server<TlsAcceptor>| sv.accept(), |c| use_client(c, sc, &src, &wr))
		}
		"sync-tls-iter" => {
			let mut sv = Server::bind_secure("127.0.0.1:0", acceptor()).unwrap();
			sync!(sv, |sv: &mut Server<TlsAcceptor>| sv.next().expect("a server does not end"), |c| use_client(c, sc, &src, &wr))
		}
		_ => {
			let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
			let h = tokio::reactor::Handle::default();
			match mode {
				"async-tls" => asy!(rt, AServer::bind_secure("127.0.0.1:0", acceptor(), &h).unwrap()),
				"into-async" => asy!(rt, Server::bind("127.0.0.1:0").unwrap().into_async(&h).unwrap()),
				_ => asy!(rt, AServer::bind("127.0.0.1:0", &h).unwrap()),
			}
		}
	}
	remote_out(false);
	let (_, extra) = head_lines(&wr.taken());
	emit(obj! {"k" => s("fin"), "out" => n(wr.len() as i64), "extra" => n(extra.len() as i64)});
}

type Rt = tokio::runtime::current_thread::Runtime;
fn aread<S: tokio_io::AsyncRead>(rt: &mut Rt, io: S) -> Vec<u8> {
	rt.block_on(tokio_io::io::read_to_end(io, vec![])).map(|x| x.1).unwrap_or_default()
}

fn act_async<S>(rt: &mut Rt, u: websocket::server::upgrade::r#async::Upgrade<S>, sc: &J, src: &Arc<Mutex<Src>>, wr: &Wr) -> Option<websocket::r#async::Client<S>>
where
	S: websocket::stream::r#async::Stream + Send + 'static,
{
	let act = sc.s("act");
	if act == "none" {
		return None;
	}
	if act == "drop" || act == "dropfn" {
		if act == "drop" {
			drop(u)
		} else {
			u.drop()
		}
		done_event("drop", "dropped", wr, src, None);
		return None;
	}
	let u = select(u, sc);
	let h = if sc.b("direct") { websocket::header::Headers::new() } else { custom_in(sc.a("custom")) };
	let (mf, mm) = (sc.limit("maxf"), sc.limit("maxm"));
	let fut = match act {
		"accept" => u.accept(),
		"accept_with" => u.accept_with(&h),
		"accept_lim" => u.accept_with_limits(mf, mm),
		"accept_hl" => u.accept_with_headers_and_limits(&h, mf, mm),
		_ => {
			let f = if act == "reject" { u.reject() } else { u.reject_with(&h) };
			match rt.block_on(f) {
				Ok(fr) => {
					done_event(act, "stream", wr, src, None);
					let c = src.lock().unwrap().pos as i64;
					let p = fr.into_parts();
					let r = aread(rt, p.io);
					left_event("back", &p.read_buf, r, c, wr);
				}
				Err(e) => done_event(act, &format!("io:{:?}", e.kind()), wr, src, None),
			}
			return None;
		}
	};
	match rt.block_on(fut) {
		Ok((c, headers)) => {
			done_event(act, "client", wr, src, Some(headers_json(&headers)));
			Some(c)
		}
		Err(e) => {
			done_event(act, &format!("io:{}", crate::recv::err_name(&e)), wr, src, None);
			None
		}
	}
}
