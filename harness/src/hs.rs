//! Opening handshakes: the server side on given bytes, the client side against a scripted peer, the HTTP
//! codecs on their own, header values, and whole negotiations between two real endpoints.
use crate::json::{n, s, J};
use crate::mock::*;
use crate::recv::{self, Out};
use crate::util::*;
use bytes::BytesMut;
use futures::{executor, Async, Future, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::http::h1::{parse_request, Incoming};
use hyper::method::Method;
use hyper::net::NetworkStream;
use hyper::status::StatusCode;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_codec::{Decoder, Encoder, Framed};
use tokio_io::{AsyncRead, AsyncWrite};
use websocket::client::sync::Client;
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::codec::ws::MessageCodec;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket::result::{WebSocketError, WebSocketOtherError};
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs, RequestStreamPair};
use websocket::server::upgrade::{HyperIntoWsError, WsUpgrade};
use websocket::stream::sync::Stream as SyncStream;
use websocket::stream::ReadWritePair;
use websocket::{ClientBuilder, OwnedMessage};

// ------------------------------------------------------------------ independent SHA-1 / base64
pub fn sha1(m: &[u8]) -> [u8; 20] {
	let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
	let mut v = m.to_vec();
	v.push(0x80);
	while v.len() % 64 != 56 {
		v.push(0);
	}
	v.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
	for c in v.chunks(64) {
		let mut w = [0u32; 80];
		for i in 0..16 {
			w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
		}
		for i in 16..80 {
			w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
		}
		let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
		for i in 0..80 {
			let (f, k) = match i {
				0..=19 => ((b & cc) | (!b & d), 0x5A827999),
				20..=39 => (b ^ cc ^ d, 0x6ED9EBA1),
				40..=59 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
				_ => (b ^ cc ^ d, 0xCA62C1D6u32),
			};
			let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
			e = d;
			d = cc;
			cc = b.rotate_left(30);
			b = a;
			a = t;
		}
		for (x, y) in h.iter_mut().zip([a, b, cc, d, e].iter()) {
			*x = x.wrapping_add(*y);
		}
	}
	let mut o = [0u8; 20];
	for i in 0..5 {
		o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
	}
	o
}
pub fn b64(d: &[u8]) -> Vec<u8> {
	const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	let mut o = vec![];
	for c in d.chunks(3) {
		let x = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
		o.push(A[(x[0] >> 2) as usize]);
		o.push(A[(((x[0] & 3) << 4) | (x[1] >> 4)) as usize]);
		o.push(if c.len() > 1 { A[(((x[1] & 15) << 2) | (x[2] >> 6)) as usize] } else { b'=' });
		o.push(if c.len() > 2 { A[(x[2] & 63) as usize] } else { b'=' });
	}
	o
}
pub fn unb64(t: &[u8]) -> Vec<u8> {
	let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
	for c in t {
		let v = match *c {
			b'A'..=b'Z' => c - b'A',
			b'a'..=b'z' => c - b'a' + 26,
			b'0'..=b'9' => c - b'0' + 52,
			b'+' => 62,
			b'/' => 63,
			_ => break,
		};
		acc = acc << 6 | v as u32;
		bits += 6;
		if bits >= 8 {
			bits -= 8;
			out.push((acc >> bits) as u8);
			acc &= (1 << bits) - 1;
		}
	}
	out
}
pub fn accept_for(keytext: &[u8]) -> Vec<u8> {
	let mut v = keytext.to_vec();
	v.extend_from_slice(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
	b64(&sha1(&v))
}

// ------------------------------------------------------------------ JSON <-> library values
pub fn txt(j: &J) -> String {
	String::from_utf8(j.bytes()).expect("scenario text")
}
pub fn jt(x: &str) -> J {
	J::from_bytes(x.as_bytes())
}
pub fn headers_json(h: &Headers) -> J {
	let mut out = vec![];
	for v in h.iter() {
		match h.get_raw(v.name()) {
			Some(lines) => {
				for l in lines {
					out.push(obj! {"n" => jt(v.name()), "v" => J::from_bytes(l)});
				}
			}
			None => out.push(obj! {"n" => jt(v.name()), "v" => jt("?")}),
		}
	}
	J::A(out)
}
pub fn ext_in(j: &J) -> Extension {
	Extension {
		name: txt(j.get("n").unwrap()),
		params: j.a("ps").iter().map(|p| Parameter::new(txt(&p.arr()[0]), p.arr().get(1).map(txt))).collect(),
	}
}
pub fn ext_out(e: &Extension) -> J {
	let ps = e
		.params
		.iter()
		.map(|p| {
			let mut v = vec![jt(&p.name)];
			if let Some(x) = &p.value {
				v.push(jt(x));
			}
			J::A(v)
		})
		.collect();
	obj! {"n" => jt(&e.name), "ps" => J::A(ps)}
}
pub fn strs(v: &[String]) -> J {
	J::A(v.iter().map(|x| jt(x)).collect())
}
pub fn exts(v: &[Extension]) -> J {
	J::A(v.iter().map(ext_out).collect())
}
pub fn custom_in(a: &[J]) -> Headers {
	let mut h = Headers::new();
	for x in a {
		let vs: Vec<Vec<u8>> = x.arr()[1].arr().iter().map(|v| v.bytes()).collect();
		h.set_raw(txt(&x.arr()[0]), vs);
	}
	h
}
/// a head as its lines, and what follows it
pub fn head_lines(b: &[u8]) -> (J, Vec<u8>) {
	match b.windows(4).position(|w| w == b"\r\n\r\n") {
		Some(p) => {
			let mut lines = vec![];
			let mut cur = vec![];
			let h = &b[..p + 2];
			let mut i = 0;
			while i < h.len() {
				if h[i] == 13 && i + 1 < h.len() && h[i + 1] == 10 {
					lines.push(J::from_bytes(&cur));
					cur.clear();
					i += 2;
				} else {
					cur.push(h[i]);
					i += 1;
				}
			}
			(J::A(lines), b[p + 4..].to_vec())
		}
		None => (J::A(vec![]), b.to_vec()),
	}
}

thread_local! {
	static BASE: std::cell::Cell<usize> = std::cell::Cell::new(0);
	static SEALED: std::cell::Cell<i64> = std::cell::Cell::new(0);
}
/// the account of the handshake is complete
pub fn seal_memory() {
	let p = peak_since(BASE.with(|b| b.get()));
	SEALED.with(|x| x.set(p));
}
/// memory is counted from here
pub fn count_memory() {
	let b = peak_start();
	BASE.with(|x| x.set(b));
	SEALED.with(|x| x.set(0));
}

pub fn why(e: &HyperIntoWsError) -> &'static str {
	match e {
		HyperIntoWsError::MethodNotGet => "method",
		HyperIntoWsError::UnsupportedHttpVersion => "version",
		HyperIntoWsError::UnsupportedWebsocketVersion => "wsversion",
		HyperIntoWsError::NoSecWsKeyHeader => "key",
		HyperIntoWsError::NoWsUpgradeHeader => "not-websocket",
		HyperIntoWsError::NoUpgradeHeader => "no-upgrade",
		HyperIntoWsError::NoWsConnectionHeader => "not-upgrade",
		HyperIntoWsError::NoConnectionHeader => "no-connection",
		HyperIntoWsError::Io(_) => "io",
		HyperIntoWsError::Parsing(hyper::Error::Io(_)) => "io",
		HyperIntoWsError::Parsing(_) => "parse",
	}
}

pub fn req_fields(e: &mut J, method: &Method, uri: &RequestUri, version: HttpVersion, headers: &Headers) {
	e.set("method", jt(method.as_ref()));
	e.set("uri", jt(&format!("{}", uri)));
	e.set("v11", J::B(version == HttpVersion::Http11));
	e.set("ver", s(ver_name(version)));
	e.set("headers", headers_json(headers));
}
fn ver_name(v: HttpVersion) -> &'static str {
	match v {
		HttpVersion::Http09 => "0.9",
		HttpVersion::Http10 => "1.0",
		HttpVersion::Http11 => "1.1",
		HttpVersion::Http20 => "2.0",
	}
}
/// the same header, set as a value and not as text, where the text is the same
fn set_typed<H: hyper::header::Header + hyper::header::HeaderFormat + Clone>(h: &mut Headers) {
	let raw: Vec<Vec<u8>> = h.get_raw(H::header_name()).map(|x| x.to_vec()).unwrap_or_default();
	let v = match h.get::<H>() {
		Some(v) => v.clone(),
		None => return,
	};
	let mut other = Headers::new();
	other.set(v.clone());
	if raw.len() == 1 && other.get_raw(H::header_name()).map(|x| x.to_vec()) == Some(raw) {
		h.set(v);
	}
}
pub fn no_req(e: &mut J) {
	e.set("method", J::A(vec![]));
	e.set("uri", J::A(vec![]));
	e.set("v11", J::B(false));
	e.set("ver", s(""));
	e.set("headers", J::A(vec![]));
}
pub fn upgrade_fields<S: websocket::stream::Stream, B>(e: &mut J, u: &WsUpgrade<S, B>) {
	e.set("key", u.key().map(|k| J::from_bytes(&k[..])).unwrap_or(J::A(vec![])));
	e.set(
		"version",
		match u.version() {
			Some(WebSocketVersion::WebSocket13) => jt("13"),
			Some(WebSocketVersion::Unknown(x)) => jt(x),
			None => J::A(vec![]),
		},
	);
	e.set("hasversion", J::B(u.version().is_some()));
	e.set("origin", jt(u.origin().unwrap_or("")));
	e.set("protos", strs(u.protocols()));
	e.set("exts", exts(u.extensions()));
	e.set("uritext", jt(&u.uri()));
	e.set("preset", headers_json(&u.headers));
}
pub fn io_fields(e: &mut J, src: &Arc<Mutex<Src>>, wr: &Wr) {
	e.set("peak", n(SEALED.with(|b| b.get())));
	let sr = src.lock().unwrap();
	// nothing comes after a reset
	let a = if sr.last_kind == Some(io::ErrorKind::ConnectionReset) { sr.last_stop } else { sr.avail() };
	e.set("a", n(a as i64));
	e.set("c", n(sr.pos as i64));
	e.set("eof", J::B(sr.eof_seen || sr.last_kind == Some(io::ErrorKind::ConnectionReset)));
	e.set("out", n(wr.len() as i64));
}
/// everything that is still to come from the transport
pub fn rest<R: Read + ?Sized>(r: &mut R) -> Vec<u8> {
	let mut v = vec![];
	let mut b = [0u8; 997];
	let mut idle = 0;
	loop {
		match r.read(&mut b) {
			Ok(0) => break,
			Ok(k) => v.extend_from_slice(&b[..k]),
			Err(_) => {
				idle += 1;
				if idle > 10_000 {
					break;
				}
			}
		}
	}
	v
}

pub fn select<S: websocket::stream::Stream, B>(mut u: WsUpgrade<S, B>, sc: &J) -> WsUpgrade<S, B> {
	if sc.b("direct") {
		u.headers.extend(custom_in(sc.a("custom")).iter());
	}
	for p in sc.a("protos") {
		u = u.use_protocol(txt(p));
	}
	let es: Vec<Extension> = sc.a("exts").iter().map(ext_in).collect();
	let k = std::cmp::min(sc.n_or("exts1", 0) as usize, es.len());
	for e in &es[..k] {
		u = u.use_extension(e.clone());
	}
	if es.len() > k {
		u = u.use_extensions(es[k..].to_vec());
	}
	u
}

pub fn left_event(k: &str, left: &[u8], rest: Vec<u8>, c: i64, wr: &Wr) {
	emit(obj! {"k" => s(k), "left" => J::from_bytes(left), "rest" => J::from_bytes(&rest), "c" => n(c), "out" => n(wr.len() as i64)});
}

/// messages from an established blocking connection, then optionally the stream itself
pub fn use_client<S: SyncStream>(mut c: Client<S>, sc: &J, src: &Arc<Mutex<Src>>, wr: &Wr) {
	let then = sc.s("then");
	let k = if then == "into" || then.starts_with("raw") { sc.n_or("k", 0) } else { 100_000 };
	if then == "none" {
		return;
	}
	emit(obj! {"k" => s("ws")});
	for _ in 0..k {
		let had = src.lock().unwrap().stops;
		let base = peak_start();
		let out = match c.recv_message() {
			Ok(m) => Out::Msg(m),
			Err(e) => Out::Err(e),
		};
		let peak = peak_since(base);
		let sr = src.lock().unwrap();
		let e = recv::event("m", &out, &sr, had, -1, peak);
		drop(sr);
		let kind = e.s("k").to_string();
		emit(e);
		if kind == "err" || kind == "eof" {
			break;
		}
	}
	if then == "into" {
		let c0 = src.lock().unwrap().pos as i64;
		let (mut st, b) = c.into_stream();
		let left = match b {
			Some((buf, pos, cap)) => buf[pos..cap].to_vec(),
			None => vec![],
		};
		let r = rest(&mut st);
		left_event("left", &left, r, c0, wr);
	} else if then.starts_with("raw") {
		// the bytes behind the last message, through the reader of the client itself
		let c0 = src.lock().unwrap().pos as i64;
		let mut left = vec![];
		let got = {
			let mut b = [0u8; 61];
			let k = c.reader_mut().read(&mut b).unwrap_or(0);
			b[..k].to_vec()
		};
		left.extend_from_slice(&got);
		let r = if then == "raw" {
			rest(c.reader_mut())
		} else {
			let (mut st, b) = c.into_stream();
			if let Some((buf, pos, cap)) = b {
				left.extend_from_slice(&buf[pos..cap]);
			}
			rest(&mut st)
		};
		left_event("left", &left, r, c0, wr);
	}
}
/// the same after splitting
pub fn use_split<S>(c: Client<S>, sc: &J, src: &Arc<Mutex<Src>>)
where
	S: SyncStream + websocket::stream::sync::Splittable,
	S::Reader: Read,
{
	let _ = sc;
	let (mut r, _w) = match c.split() {
		Ok(x) => x,
		Err(_) => {
			emit(obj! {"k" => s("splitfail")});
			return;
		}
	};
	emit(obj! {"k" => s("ws")});
	loop {
		let had = src.lock().unwrap().stops;
		let base = peak_start();
		let out = match r.recv_message() {
			Ok(m) => Out::Msg(m),
			Err(e) => Out::Err(e),
		};
		let peak = peak_since(base);
		let sr = src.lock().unwrap();
		let e = recv::event("m", &out, &sr, had, -1, peak);
		drop(sr);
		let kind = e.s("k").to_string();
		emit(e);
		if kind == "err" || kind == "eof" {
			break;
		}
	}
}
fn use_framed<S>(f: Framed<S, MessageCodec<OwnedMessage>>, sc: &J, src: &Arc<Mutex<Src>>, wr: &Wr)
where
	S: AsyncRead + AsyncWrite,
{
	let then = sc.s("then");
	let k = if then == "into" { sc.n_or("k", 0) } else { 100_000 };
	if then == "none" {
		return;
	}
	let notify = Arc::new(NoWake);
	emit(obj! {"k" => s("ws")});
	let mut f = executor::spawn(f);
	let mut got = 0;
	for _ in 0..100_000 {
		if got >= k {
			break;
		}
		let had = src.lock().unwrap().stops;
		let base = peak_start();
		let out = match f.poll_stream_notify(&notify, 0) {
			Ok(Async::Ready(Some(m))) => Out::Msg(m),
			Ok(Async::Ready(None)) => Out::End,
			Ok(Async::NotReady) => Out::Wb,
			Err(e) => Out::Err(e),
		};
		let peak = peak_since(base);
		let sr = src.lock().unwrap();
		let out = match out {
			Out::Wb if sr.stops == had => Out::Hang,
			o => o,
		};
		let e = recv::event("m", &out, &sr, had, -1, peak);
		drop(sr);
		let kind = e.s("k").to_string();
		emit(e);
		got += (kind == "msg") as i64;
		if kind == "err" || kind == "eof" || kind == "end" || kind == "hang" {
			break;
		}
	}
	if then == "into" {
		let c0 = src.lock().unwrap().pos as i64;
		let p = f.into_inner().into_parts();
		let mut io = p.io;
		let r = rest(&mut io);
		left_event("left", &p.read_buf, r, c0, wr);
	}
}

// ------------------------------------------------------------------ the server side
struct Net(Duplex);
impl Read for Net {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		self.0.read(b)
	}
}
impl Write for Net {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.0.write(b)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.0.flush()
	}
}
impl NetworkStream for Net {
	fn peer_addr(&mut self) -> io::Result<SocketAddr> {
		Ok("127.0.0.1:1".parse().unwrap())
	}
	fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
		Ok(())
	}
	fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
		Ok(())
	}
}

thread_local! { static REMOTE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// what is written shows up elsewhere, and a little later
pub fn remote_out(on: bool) {
	REMOTE.with(|r| r.set(on));
}
pub fn done_event(act: &str, r: &str, wr: &Wr, src: &Arc<Mutex<Src>>, exposed: Option<J>) {
	if REMOTE.with(|x| x.get()) && act != "drop" {
		let t0 = std::time::Instant::now();
		while !wr.taken().windows(4).any(|w| w == b"\r\n\r\n") && t0.elapsed() < Duration::from_secs(3) {
			std::thread::sleep(Duration::from_micros(200));
		}
	}
	let (lines, extra) = head_lines(&wr.taken());
	let mut e = obj! {"k" => s("done"), "act" => s(act), "r" => s(r), "lines" => lines, "extra" => J::from_bytes(&extra)};
	e.set("isclient", J::B(exposed.is_some()));
	e.set("headers", exposed.unwrap_or(J::A(vec![])));
	io_fields(&mut e, src, wr);
	emit(e);
}

pub fn act_sync<S: SyncStream>(
	u: WsUpgrade<S, Option<websocket::server::upgrade::sync::Buffer>>,
	sc: &J,
	src: &Arc<Mutex<Src>>,
	wr: &Wr,
) -> Option<Client<S>> {
	let act = sc.s("act");
	if act == "none" {
		return None;
	}
	let u = if act == "drop" || act == "dropfn" { u } else { select(u, sc) };
	// given with the call, or put on the upgrade beforehand
	let h = if sc.b("direct") { Headers::new() } else { custom_in(sc.a("custom")) };
	let (mf, mm) = (sc.limit("maxf"), sc.limit("maxm"));
	let r = match act {
		"accept" => u.accept(),
		"accept_with" => u.accept_with(&h),
		"accept_lim" => u.accept_with_limits(mf, mm),
		"accept_hl" => u.accept_with_headers_and_limits(&h, mf, mm),
		"reject" | "reject_with" => {
			let r = if act == "reject" { u.reject() } else { u.reject_with(&h) };
			match r {
				Ok(mut st) => {
					done_event(act, "stream", wr, src, None);
					let c = src.lock().unwrap().pos as i64;
					let r = rest(&mut st);
					left_event("back", &[], r, c, wr);
				}
				Err((_, e)) => done_event(act, &format!("io:{:?}", e.kind()), wr, src, None),
			}
			return None;
		}
		"dropfn" => {
			u.drop();
			done_event("drop", "dropped", wr, src, None);
			return None;
		}
		_ => {
			drop(u);
			done_event("drop", "dropped", wr, src, None);
			return None;
		}
	};
	match r {
		Ok(c) => {
			done_event(act, "client", wr, src, Some(headers_json(c.headers())));
			emit(obj! {"k" => s("neg"), "protos" => strs(c.protocols()), "exts" => exts(c.extensions())});
			Some(c)
		}
		Err((_, e)) => {
			done_event(act, &format!("io:{:?}", e.kind()), wr, src, None);
			None
		}
	}
}

fn serve_sync<S>(io: S, sc: &J, src: &Arc<Mutex<Src>>, wr: &Wr)
where
	S: SyncStream + websocket::stream::sync::Splittable,
	S::Reader: Read,
{
	let r = IntoWs::into_ws(io);
	seal_memory();
	let mut e = obj! {"k" => s("hs")};
	match r {
		Ok(u) => {
			e.set("r", s("upgrade"));
			e.set("why", s(""));
			e.set("req", J::B(true));
			req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
			upgrade_fields(&mut e, &u);
			let left = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
			e.set("left", J::from_bytes(&left));
			io_fields(&mut e, src, wr);
			emit(e);
			if let Some(c) = act_sync(u, sc, src, wr) {
				if sc.s("then") == "split" {
					use_split(c, sc, src)
				} else {
					use_client(c, sc, src, wr)
				}
			}
		}
		Err((mut st, req, buf, er)) => {
			e.set("r", s("invalid"));
			e.set("why", s(why(&er)));
			e.set("req", J::B(req.is_some()));
			match &req {
				Some(q) => req_fields(&mut e, &q.subject.0, &q.subject.1, q.version, &q.headers),
				None => no_req(&mut e),
			}
			let left = buf.map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
			e.set("left", J::from_bytes(&left));
			io_fields(&mut e, src, wr);
			let c = src.lock().unwrap().pos as i64;
			emit(e);
			let r = rest(&mut st);
			left_event("back", &[], r, c, wr);
		}
	}
}

pub fn run_server(sc: &J) {
	let raw = sc.get("raw").map(|x| x.bytes()).unwrap_or_default();
	let rd = Rd::new(raw, steps(sc.a("feed")));
	let src = rd.0.clone();
	let wr = Wr::new(steps(sc.a("sched")));
	let io = Duplex(rd.clone(), wr.clone());
	count_memory();
	match sc.s("entry") {
		"sync" => {
			if sc.b("rwp") {
				serve_sync(ReadWritePair(rd.clone(), wr.clone()), sc, &src, &wr)
			} else {
				serve_sync(io, sc, &src, &wr)
			}
		}
		"pair" => {
			// the request is taken off the stream by someone else
			let mut br = BufReader::with_capacity(rd.clone(), 1);
			let req = {
				// one byte at a time, so that nothing beyond the head is taken
				let mut head = vec![];
				let mut b = [0u8; 1];
				let mut idle = 0;
				while !head.ends_with(b"\r\n\r\n") {
					match rd.clone().read(&mut b) {
						Ok(1) => head.push(b[0]),
						Ok(_) => break,
						Err(_) => {
							idle += 1;
							if idle > 1000 {
								break;
							}
						}
					}
				}
				let mut h = BufReader::new(&head[..]);
				parse_request(&mut h)
			};
			let _ = br.get_mut();
			let req = match req {
				Ok(mut r) => {
					match sc.s("httpver") {
						"0.9" => r.version = HttpVersion::Http09,
						"1.0" => r.version = HttpVersion::Http10,
						"1.1" => r.version = HttpVersion::Http11,
						"2.0" => r.version = HttpVersion::Http20,
						_ => {}
					}
					if sc.b("typed") {
						set_typed::<hyper::header::Upgrade>(&mut r.headers);
						set_typed::<hyper::header::Connection>(&mut r.headers);
						set_typed::<hyper::header::Host>(&mut r.headers);
						set_typed::<websocket::header::Origin>(&mut r.headers);
						set_typed::<websocket::header::WebSocketKey>(&mut r.headers);
						set_typed::<websocket::header::WebSocketVersion>(&mut r.headers);
						set_typed::<websocket::header::WebSocketProtocol>(&mut r.headers);
						set_typed::<websocket::header::WebSocketExtensions>(&mut r.headers);
					}
					r
				}
				Err(_) => {
					emit(obj! {"k" => s("unparsed")});
					return;
				}
			};
			let mut e = obj! {"k" => s("hs")};
			match IntoWs::into_ws(RequestStreamPair(io, req)) {
				Ok(u) => {
					e.set("r", s("upgrade"));
					e.set("why", s(""));
					e.set("req", J::B(true));
					req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
					upgrade_fields(&mut e, &u);
					let left = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
					e.set("left", J::from_bytes(&left));
					io_fields(&mut e, &src, &wr);
					emit(e);
					if let Some(c) = act_sync(u, sc, &src, &wr) {
						if sc.s("then") == "split" {
							use_split(c, sc, &src)
						} else {
							use_client(c, sc, &src, &wr)
						}
					}
				}
				Err((mut st, q, er)) => {
					e.set("r", s("invalid"));
					e.set("why", s(why(&er)));
					e.set("req", J::B(true));
					req_fields(&mut e, &q.subject.0, &q.subject.1, q.version, &q.headers);
					e.set("left", J::A(vec![]));
					io_fields(&mut e, &src, &wr);
					let c = src.lock().unwrap().pos as i64;
					emit(e);
					let r = rest(&mut st);
					left_event("back", &[], r, c, &wr);
				}
			}
		}
		"hyper" => {
			let mut net = Net(io);
			let ns: &mut dyn NetworkStream = &mut net;
			let mut br: BufReader<&mut dyn NetworkStream> = BufReader::new(ns);
			let addr: SocketAddr = "127.0.0.1:1".parse().unwrap();
			let req = match hyper::server::Request::new(&mut br, addr) {
				Ok(r) => r,
				Err(_) => {
					emit(obj! {"k" => s("unparsed")});
					return;
				}
			};
			let mut e = obj! {"k" => s("hs")};
			match IntoWs::into_ws(HyperRequest(req)) {
				Ok(u) => {
					e.set("r", s("upgrade"));
					e.set("why", s(""));
					e.set("req", J::B(true));
					req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
					upgrade_fields(&mut e, &u);
					let left = u.buffer.as_ref().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
					e.set("left", J::from_bytes(&left));
					io_fields(&mut e, &src, &wr);
					emit(e);
					if let Some(c) = act_sync(u, sc, &src, &wr) {
						use_client(c, sc, &src, &wr);
					}
				}
				Err((q, er)) => {
					e.set("r", s("invalid"));
					e.set("why", s(why(&er)));
					e.set("req", J::B(true));
					req_fields(&mut e, &q.method, &q.uri, q.version, &q.headers);
					e.set("left", J::A(vec![]));
					io_fields(&mut e, &src, &wr);
					emit(e);
				}
			}
		}
		_ if sc.b("rwp") => run_server_async(sc, ReadWritePair(rd.clone(), wr.clone()), &src, &wr),
		_ => run_server_async(sc, io, &src, &wr),
	}
	let (_, extra) = head_lines(&wr.taken());
	emit(obj! {"k" => s("fin"), "out" => n(wr.len() as i64), "extra" => n(extra.len() as i64)});
}

/// polls a future to its end; every NotReady becomes an event
fn drive<F: Future>(f: F, src: &Arc<Mutex<Src>>, wr: &Wr, tell: bool) -> Option<Result<F::Item, F::Error>> {
	let notify = Arc::new(NoWake);
	let mut f = executor::spawn(f);
	for _ in 0..200_000 {
		let had = src.lock().unwrap().stops + wr.0.lock().unwrap().stops;
		match f.poll_future_notify(&notify, 0) {
			Ok(Async::Ready(x)) => return Some(Ok(x)),
			Err(e) => return Some(Err(e)),
			Ok(Async::NotReady) => {
				if src.lock().unwrap().stops + wr.0.lock().unwrap().stops == had {
					emit(obj! {"k" => s("hang"), "op" => s("poll")});
					return None;
				}
				if tell {
					let sr = src.lock().unwrap();
					let e = obj! {"k" => s("wb"), "a" => n(sr.last_stop as i64), "c" => n(sr.pos as i64), "out" => n(wr.len() as i64)};
					drop(sr);
					emit(e);
				}
			}
		}
	}
	emit(obj! {"k" => s("hang"), "op" => s("poll")});
	None
}

fn run_server_async<S: websocket::stream::r#async::Stream + Send + 'static>(sc: &J, io: S, src: &Arc<Mutex<Src>>, wr: &Wr) {
	let r = match drive(AIntoWs::into_ws(io), src, wr, true) {
		Some(r) => r,
		None => return,
	};
	seal_memory();
	let mut e = obj! {"k" => s("hs")};
	let u = match r {
		Ok(u) => u,
		Err((mut st, req, buf, er)) => {
			e.set("r", s("invalid"));
			e.set("why", s(why(&er)));
			e.set("req", J::B(req.is_some()));
			match &req {
				Some(q) => req_fields(&mut e, &q.subject.0, &q.subject.1, q.version, &q.headers),
				None => no_req(&mut e),
			}
			e.set("left", J::from_bytes(&buf));
			io_fields(&mut e, src, wr);
			let c = src.lock().unwrap().pos as i64;
			emit(e);
			let r = rest(&mut st);
			left_event("back", &[], r, c, wr);
			return;
		}
	};
	e.set("r", s("upgrade"));
	e.set("why", s(""));
	e.set("req", J::B(true));
	req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
	upgrade_fields(&mut e, &u);
	e.set("left", J::from_bytes(&u.buffer));
	io_fields(&mut e, src, wr);
	emit(e);
	let act = sc.s("act");
	if act == "none" {
		return;
	}
	let u = if act == "drop" || act == "dropfn" { u } else { select(u, sc) };
	// given with the call, or put on the upgrade beforehand
	let h = if sc.b("direct") { Headers::new() } else { custom_in(sc.a("custom")) };
	let (mf, mm) = (sc.limit("maxf"), sc.limit("maxm"));
	let fut = match act {
		"accept" => u.accept(),
		"accept_with" => u.accept_with(&h),
		"accept_lim" => u.accept_with_limits(mf, mm),
		"accept_hl" => u.accept_with_headers_and_limits(&h, mf, mm),
		"reject" | "reject_with" => {
			let f = if act == "reject" { u.reject() } else { u.reject_with(&h) };
			match drive(f, src, wr, false) {
				Some(Ok(fr)) => {
					done_event(act, "stream", wr, src, None);
					let c = src.lock().unwrap().pos as i64;
					let p = fr.into_parts();
					let mut io = p.io;
					let r = rest(&mut io);
					left_event("back", &p.read_buf, r, c, wr);
				}
				Some(Err(e)) => done_event(act, &format!("io:{:?}", e.kind()), wr, src, None),
				None => {}
			}
			return;
		}
		"dropfn" => {
			u.drop();
			done_event("drop", "dropped", wr, src, None);
			return;
		}
		_ => {
			drop(u);
			done_event("drop", "dropped", wr, src, None);
			return;
		}
	};
	match drive(fut, src, wr, false) {
		Some(Ok((c, headers))) => {
			done_event(act, "client", wr, src, Some(headers_json(&headers)));
			use_framed(c, sc, src, wr);
		}
		Some(Err(e)) => done_event(act, &format!("io:{}", recv::err_name(&e)), wr, src, None),
		None => {}
	}
}

// ------------------------------------------------------------------ the client side
type Plan = Arc<Mutex<Option<(Vec<J>, VecDeque<Step>)>>>;
/// a peer that answers once the client starts reading
pub struct Peer {
	rd: Rd,
	wr: Wr,
	plan: Plan,
}
fn key_of(out: &[u8]) -> Vec<u8> {
	// independent of the library: the value of the last line named Sec-WebSocket-Key
	let t: Vec<u8> = out.to_vec();
	let mut key = vec![];
	for l in t.split(|b| *b == 10) {
		let l = if l.ends_with(b"\r") { &l[..l.len() - 1] } else { l };
		if let Some(c) = l.iter().position(|b| *b == b':') {
			if l[..c].eq_ignore_ascii_case(b"sec-websocket-key") {
				key = l[c + 1..].iter().cloned().filter(|b| *b != b' ').collect();
			}
		}
	}
	key
}
pub fn response(parts: &[J], out: &[u8]) -> Vec<u8> {
	let key = key_of(out);
	let good = accept_for(&key);
	let mut v = vec![];
	for p in parts {
		if p.has("b") {
			v.extend(p.get("b").unwrap().bytes());
			continue;
		}
		let mut g = good.clone();
		match p.s("acc") {
			"good" => {}
			"flip" => {
				let i = p.n_or("i", 0) as usize % 27;
				g[i] = if g[i] == b'A' { b'B' } else { b'A' };
			}
			"case" => {
				for b in g.iter_mut() {
					*b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
				}
			}
			"trunc" => {
				g.pop();
				g.pop();
			}
			"nopad" => {
				g.pop();
			}
			"key" => g = key.clone(),
			"other" => g = accept_for(b"AAAAAAAAAAAAAAAAAAAAAA=="),
			"nomagic" => g = b64(&sha1(&key)),
			"lowmagic" | "rawkey" | "keyspace" => {
				let magic = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
				let mut m = match p.s("acc") {
					"rawkey" => unb64(&key),
					"keyspace" => [&key[..], b" "].concat(),
					_ => key.clone(),
				};
				m.extend(if p.s("acc") == "lowmagic" { magic.to_lowercase() } else { magic.to_string() }.bytes());
				g = b64(&sha1(&m));
			}
			"hex" => g = unb64(&good).iter().flat_map(|b| format!("{:02x}", b).into_bytes()).collect(),
			"urlsafe" => {
				for b in g.iter_mut() {
					*b = match *b {
						b'+' => b'-',
						b'/' => b'_',
						c => c,
					};
				}
			}
			// the digest with bytes before and behind it, or only a part of it
			"bytes" => {
				let d = unb64(&good);
				let mut v = p.get("pre").unwrap().bytes();
				v.extend(d.iter().skip(p.n_or("skip", 0) as usize).take(p.n_or("keep", 20) as usize));
				v.extend(p.get("post").unwrap().bytes());
				g = b64(&v);
			}
			// text at a place of the value
			"insert" => {
				let i = (p.n_or("i", 0) as usize).min(g.len());
				for (k, b) in p.get("t").unwrap().bytes().into_iter().enumerate() {
					g.insert(i + k, b);
				}
			}
			"twice" => {
				let h = g.clone();
				g.extend(h);
			}
			_ => {}
		}
		v.extend(g);
	}
	v
}
impl Peer {
	fn answer(&mut self) {
		if let Some((parts, st)) = self.plan.lock().unwrap().take() {
			let data = response(&parts, &self.wr.taken());
			let mut sr = self.rd.0.lock().unwrap();
			sr.data = data;
			sr.steps = st;
		}
	}
}
impl Read for Peer {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		self.answer();
		self.rd.read(b)
	}
}
impl Write for Peer {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.wr.write(b)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.wr.flush()
	}
}
impl AsyncRead for Peer {}
impl AsyncWrite for Peer {
	fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
		Ok(Async::Ready(()))
	}
}
impl websocket::stream::sync::Splittable for Peer {
	type Reader = Rd;
	type Writer = Wr;
	fn split(mut self) -> io::Result<(Rd, Wr)> {
		self.answer();
		Ok((self.rd.clone(), self.wr.clone()))
	}
}

pub fn apply_op<'u>(b: ClientBuilder<'u>, o: &J) -> ClientBuilder<'u> {
	use hyper::header as hh;
	match o.s("o") {
		"proto" => b.add_protocol(txt(o.get("v").unwrap())),
		"protos" => b.add_protocols(o.a("vs").iter().map(txt).collect::<Vec<String>>()),
		"clrproto" => b.clear_protocols(),
		"ext" => b.add_extension(ext_in(o.get("v").unwrap())),
		"exts" => b.add_extensions(o.a("vs").iter().map(ext_in).collect::<Vec<Extension>>()),
		"clrext" => b.clear_extensions(),
		"key" => {
			let mut k = [0u8; 16];
			k.copy_from_slice(&o.get("v").unwrap().bytes());
			b.key(k)
		}
		"clrkey" => b.clear_key(),
		"ver" => {
			let v = txt(o.get("v").unwrap());
			b.version(if v == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(v) })
		}
		"clrver" => b.clear_version(),
		"origin" => b.origin(txt(o.get("v").unwrap())),
		"clrorigin" => b.clear_origin(),
		"hdrs" => b.custom_headers(&custom_in(o.a("vs"))),
		"clrhdr" => match txt(o.get("v").unwrap()).to_ascii_lowercase().as_str() {
			"cookie" => b.clear_header::<hh::Cookie>(),
			"user-agent" => b.clear_header::<hh::UserAgent>(),
			"referer" => b.clear_header::<hh::Referer>(),
			"authorization" => b.clear_header::<hh::Authorization<String>>(),
			"origin" => b.clear_header::<Origin>(),
			"sec-websocket-protocol" => b.clear_header::<WebSocketProtocol>(),
			"sec-websocket-extensions" => b.clear_header::<WebSocketExtensions>(),
			"sec-websocket-key" => b.clear_header::<WebSocketKey>(),
			"sec-websocket-version" => b.clear_header::<WebSocketVersion>(),
			x => panic!("clear_header {}", x),
		},
		"maxf" => b.max_dataframe_size(o.limit("v")),
		"maxm" => b.max_message_size(o.limit("v")),
		"clone" => {
			let c = b.clone();
			drop(b);
			c
		}
		x => panic!("op {}", x),
	}
}

pub fn client_result(r: &WebSocketError) -> (String, i64, Vec<u8>) {
	if let WebSocketError::Other(b) = r {
		if let Some(x) = b.downcast_ref::<WebSocketOtherError>() {
			return match x {
				WebSocketOtherError::RedirectError(c, l) => ("redirect".into(), c.to_u16() as i64, l.as_bytes().to_vec()),
				WebSocketOtherError::StatusCodeError(c) => ("status".into(), c.to_u16() as i64, vec![]),
				WebSocketOtherError::ResponseError(_) => ("response".into(), 0, vec![]),
				WebSocketOtherError::RequestError(_) => ("request".into(), 0, vec![]),
				WebSocketOtherError::HttpError(hyper::Error::Io(_)) => ("io".into(), 0, vec![]),
				WebSocketOtherError::HttpError(_) => ("http".into(), 0, vec![]),
				WebSocketOtherError::IoError(_) => ("io".into(), 0, vec![]),
				WebSocketOtherError::UrlError(_) => ("url".into(), 0, vec![]),
				WebSocketOtherError::WebSocketUrlError(_) => ("nohost".into(), 0, vec![]),
				WebSocketOtherError::TlsError(_) | WebSocketOtherError::TlsHandshakeFailure | WebSocketOtherError::TlsHandshakeInterruption => {
					("tls".into(), 0, vec![])
				}
				_ => ("other".into(), 0, vec![]),
			};
		}
		return (format!("other:{}", b), 0, vec![]);
	}
	(recv::err_name(r), 0, vec![])
}

pub fn request_event(url: &str, wr: &Wr, had: usize) {
	let all = wr.taken();
	let (lines, extra) = head_lines(&all[had..]);
	emit(obj! {"k" => s("req"), "url" => jt(url), "lines" => lines, "extra" => J::from_bytes(&extra)});
}
pub fn hs_event(r: Result<&Headers, &WebSocketError>, src: &Arc<Mutex<Src>>, wr: &Wr) {
	let mut e = obj! {"k" => s("hs")};
	match r {
		Ok(h) => {
			e.set("r", s("client"));
			e.set("code", n(101));
			e.set("loc", J::A(vec![]));
			e.set("headers", headers_json(h));
		}
		Err(er) => {
			let (r, c, l) = client_result(er);
			e.set("r", J::S(r));
			e.set("code", n(c));
			e.set("loc", J::from_bytes(&l));
			e.set("headers", J::A(vec![]));
		}
	}
	io_fields(&mut e, src, wr);
	emit(e);
}

fn client_step<S>(b: &mut ClientBuilder, peer: S, is_async: bool, url: &str, step: &J, src: &Arc<Mutex<Src>>, wr: &Wr)
where
	S: SyncStream + websocket::stream::r#async::Stream + Send + 'static + websocket::stream::sync::Splittable,
	S::Reader: Read,
{
	if is_async {
		let r = drive(b.clone().async_connect_on(peer), src, wr, false);
		seal_memory();
		request_event(url, wr, 0);
		emit(obj! {"k" => s("resp"), "raw" => J::from_bytes(&src.lock().unwrap().data)});
		match r {
			Some(Ok((c, h))) => {
				hs_event(Ok(&h), src, wr);
				use_framed(c, step, src, wr);
			}
			Some(Err(e)) => hs_event(Err(&e), src, wr),
			None => {}
		}
	} else {
		let r = b.connect_on(peer);
		seal_memory();
		request_event(url, wr, 0);
		emit(obj! {"k" => s("resp"), "raw" => J::from_bytes(&src.lock().unwrap().data)});
		match r {
			Ok(c) => {
				hs_event(Ok(c.headers()), src, wr);
				emit(obj! {"k" => s("neg"), "protos" => strs(c.protocols()), "exts" => exts(c.extensions())});
				if step.s("then") == "split" {
					use_split(c, step, src)
				} else {
					use_client(c, step, src, wr)
				}
			}
			Err(e) => hs_event(Err(&e), src, wr),
		}
	}
}

pub fn run_client(sc: &J) {
	let url = txt(sc.get("url").unwrap());
	let parsed;
	let mut b = if sc.b("fromurl") {
		parsed = websocket::url::Url::parse(&url).expect("scenario url");
		ClientBuilder::from_url(&parsed)
	} else {
		ClientBuilder::new(&url).expect("scenario url")
	};
	let is_async = sc.s("api") == "async";
	for step in sc.a("steps") {
		for o in step.a("ops") {
			b = apply_op(b, o);
		}
		let rd = Rd::new(vec![], VecDeque::new());
		let wr = Wr::new(steps(step.a("sched")));
		let src = rd.0.clone();
		let plan: Plan = Arc::new(Mutex::new(Some((step.a("resp").to_vec(), steps(step.a("feed"))))));
		let peer = Peer { rd: rd.clone(), wr: wr.clone(), plan: plan.clone() };
		count_memory();
		emit(obj! {"k" => s("step")});
		if sc.b("rwp") {
			client_step(&mut b, ReadWritePair(peer, wr.clone()), is_async, &url, step, &src, &wr);
		} else {
			client_step(&mut b, peer, is_async, &url, step, &src, &wr);
		}
		emit(obj! {"k" => s("fin"), "out" => n(wr.len() as i64)});
	}
}

// ------------------------------------------------------------------ the HTTP codecs alone
pub fn run_codec(sc: &J) {
	let raw = sc.get("raw").map(|x| x.bytes()).unwrap_or_default();
	let server = sc.b("server");
	let mut buf = BytesMut::with_capacity(sc.n_or("cap", 16) as usize);
	let mut cuts = vec![];
	let mut t = 0;
	for x in sc.a("feed") {
		t = std::cmp::min(t + x.num() as usize, raw.len());
		cuts.push(t);
	}
	cuts.push(raw.len());
	let mut fed = 0;
	for cut in cuts {
		buf.extend_from_slice(&raw[fed..cut]);
		fed = cut;
		loop {
			let mut e = obj! {"k" => s("")};
			let res: Result<Option<J>, String> = if server {
				match HttpServerCodec.decode(&mut buf) {
					Ok(Some(m)) => {
						let mut x = obj! {"code" => n(0)};
						req_fields(&mut x, &m.subject.0, &m.subject.1, m.version, &m.headers);
						Ok(Some(x))
					}
					Ok(None) => Ok(None),
					Err(_) => Err("http".into()),
				}
			} else {
				match HttpClientCodec.decode(&mut buf) {
					Ok(Some(m)) => {
						let mut x = obj! {"code" => n(m.subject.0 as i64)};
						x.set("method", J::A(vec![]));
						x.set("uri", J::A(vec![]));
						x.set("v11", J::B(m.version == HttpVersion::Http11));
						x.set("headers", headers_json(&m.headers));
						Ok(Some(x))
					}
					Ok(None) => Ok(None),
					Err(_) => Err("http".into()),
				}
			};
			let c = (fed - buf.len()) as i64;
			let mut stop = true;
			let mut brk = false;
			match res {
				Ok(Some(x)) => {
					e = x;
					e.set("k", s("head"));
					stop = false;
				}
				Ok(None) => e.set("r", s("none")),
				Err(_) => {
					e.set("r", s("err"));
					brk = true;
				}
			}
			let r = e.s("r").to_string();
			if !r.is_empty() {
				e = obj! {"k" => J::S(r)};
			}
			e.set("a", n(fed as i64));
			e.set("c", n(c));
			e.set("buf", n(buf.len() as i64));
			emit(e);
			if brk {
				return;
			}
			if stop {
				break;
			}
		}
	}
}

/// an encoder: a head given by its parts comes out as bytes, after whatever is in the buffer already
pub fn run_encode(sc: &J) {
	let mut buf = BytesMut::with_capacity(sc.n_or("cap", 0) as usize);
	let pre = sc.get("pre").map(|x| x.bytes()).unwrap_or_default();
	buf.extend_from_slice(&pre);
	for h in sc.a("heads") {
		let headers = custom_in(h.a("headers"));
		let version = if h.b("v11") { HttpVersion::Http11 } else { HttpVersion::Http10 };
		let had = buf.len();
		let ok = if sc.b("server") {
			HttpServerCodec.encode(Incoming { version, subject: StatusCode::from_u16(h.n("code") as u16), headers }, &mut buf).is_ok()
		} else {
			let m: Method = txt(h.get("method").unwrap()).parse().unwrap();
			HttpClientCodec
				.encode(Incoming { version, subject: (m, RequestUri::AbsolutePath(txt(h.get("uri").unwrap()))), headers }, &mut buf)
				.is_ok()
		};
		let (lines, extra) = head_lines(&buf[had..]);
		emit(obj! {"k" => s("enc"), "ok" => J::B(ok), "kept" => J::B(buf[..std::cmp::min(had, buf.len())].starts_with(&pre)),
			"lines" => lines, "extra" => J::from_bytes(&extra)});
	}
}

// ------------------------------------------------------------------ header values alone
pub fn run_hdr(sc: &J) {
	use hyper::header::{Header, HeaderFormat};
	fn fmt<H: HeaderFormat>(h: &H) -> Vec<u8> {
		struct F<'a, H: 'a>(&'a H);
		impl<'a, H: HeaderFormat> std::fmt::Display for F<'a, H> {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				self.0.fmt_header(f)
			}
		}
		format!("{}", F(h)).into_bytes()
	}
	let lines: Vec<Vec<u8>> = sc.a("lines").iter().map(|x| x.bytes()).collect();
	let build = sc.b("build");
	let kind = sc.s("kind");
	macro_rules! go {
		($t:ty, $mk:expr, $out:expr) => {{
			let text = if build {
				let v: $t = $mk;
				let t = fmt(&v);
				vec![t]
			} else {
				lines.clone()
			};
			emit(obj! {"k" => s("text"), "lines" => J::A(text.iter().map(|x| J::from_bytes(x)).collect())});
			match <$t as Header>::parse_header(&text) {
				Ok(v) => {
					let again = fmt(&v);
					emit(obj! {"k" => s("value"), "v" => $out(&v), "again" => J::from_bytes(&again)})
				}
				Err(_) => emit(obj! {"k" => s("bad")}),
			}
		}};
	}
	let v = sc.get("v").cloned().unwrap_or(J::Null);
	let sixteen = |j: &J| {
		let mut k = [0u8; 16];
		let b = j.bytes();
		if b.len() == 16 {
			k.copy_from_slice(&b);
		}
		k
	};
	match kind {
		"proto" => go!(WebSocketProtocol, WebSocketProtocol(v.arr().iter().map(txt).collect()), |v: &WebSocketProtocol| strs(&v.0)),
		"ext" => go!(WebSocketExtensions, WebSocketExtensions(v.arr().iter().map(ext_in).collect()), |v: &WebSocketExtensions| exts(&v.0)),
		"key" => go!(WebSocketKey, WebSocketKey::from_array(sixteen(&v)), |v: &WebSocketKey| J::from_bytes(&(v.0).0)),
		"accept" => go!(WebSocketAccept, WebSocketAccept::new(&WebSocketKey::from_array(sixteen(&v))), |v: &WebSocketAccept| jt(&v.serialize())),
		"version" => go!(
			WebSocketVersion,
			if txt(&v) == "13" { WebSocketVersion::WebSocket13 } else { WebSocketVersion::Unknown(txt(&v)) },
			|v: &WebSocketVersion| match v {
				WebSocketVersion::WebSocket13 => jt("13"),
				WebSocketVersion::Unknown(x) => jt(x),
			}
		),
		_ => go!(Origin, Origin(txt(&v)), |v: &Origin| jt(&v.0)),
	}
}

// ------------------------------------------------------------------ two real endpoints
pub fn run_nego(sc: &J) {
	let sc2 = sc.clone();
	let (ptx, prx) = std::sync::mpsc::channel();
	let srv = std::thread::spawn(move || -> Vec<J> {
		let sc = &sc2;
		// given with the call, or put on the upgrade beforehand
	let h = if sc.b("direct") { Headers::new() } else { custom_in(sc.a("custom")) };
		let seen = |e: &mut J, exposed: J| {
			e.set("answer", exposed);
		};
		if sc.s("server") == "sync" {
			let mut sv = websocket::sync::Server::bind("127.0.0.1:0").unwrap();
			ptx.send(sv.local_addr().unwrap().port()).unwrap();
			let u = match sv.accept() {
				Ok(u) => u,
				Err(e) => return vec![obj! {"k" => s("serverfail"), "why" => s(why(&e.error))}],
			};
			let mut e = obj! {"k" => s("server")};
			req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
			upgrade_fields(&mut e, &u);
			match select(u, sc).accept_with(&h) {
				Ok(c) => seen(&mut e, headers_json(c.headers())),
				Err(_) => return vec![obj! {"k" => s("serverfail"), "why" => s("accept")}],
			}
			vec![e]
		} else {
			let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
			let sv = websocket::r#async::Server::bind("127.0.0.1:0", &tokio::reactor::Handle::default()).unwrap();
			ptx.send(sv.local_addr().unwrap().port()).unwrap();
			let sc3 = sc.clone();
			let f = sv.incoming().into_future().map_err(|_| ()).and_then(move |(x, _)| {
				let u = x.unwrap().0;
				let mut e = obj! {"k" => s("server")};
				req_fields(&mut e, &u.request.subject.0, &u.request.subject.1, u.request.version, &u.request.headers);
				upgrade_fields(&mut e, &u);
				select(u, &sc3).accept_with(&h).map_err(|_| ()).map(move |(_c, hd)| {
					e.set("answer", headers_json(&hd));
					e
				})
			});
			match rt.block_on(f) {
				Ok(e) => vec![e],
				Err(_) => vec![obj! {"k" => s("serverfail"), "why" => s("future")}],
			}
		}
	});
	let port = prx.recv().unwrap();
	let url = txt(sc.get("url").unwrap()).replace("PORT", &port.to_string());
	let mut b = ClientBuilder::new(&url).expect("url");
	for o in sc.a("ops") {
		b = apply_op(b, o);
	}
	let get = |h: &Headers, e: &mut J| {
		e.set("headers", headers_json(h));
		e.set("protos", h.get::<WebSocketProtocol>().map(|p| strs(&p.0)).unwrap_or(J::A(vec![])));
		e.set("exts", h.get::<WebSocketExtensions>().map(|p| exts(&p.0)).unwrap_or(J::A(vec![])));
	};
	let mut e = obj! {"k" => s("client")};
	if sc.s("client") == "sync" {
		match b.connect_insecure() {
			Ok(c) => {
				e.set("headers", headers_json(c.headers()));
				e.set("protos", strs(c.protocols()));
				e.set("exts", exts(c.extensions()));
			}
			Err(er) => e = obj! {"k" => s("clientfail"), "e" => J::S(client_result(&er).0)},
		}
	} else {
		let mut rt = tokio::runtime::current_thread::Runtime::new().unwrap();
		match rt.block_on(b.async_connect_insecure()) {
			Ok((_c, h)) => get(&h, &mut e),
			Err(er) => e = obj! {"k" => s("clientfail"), "e" => J::S(client_result(&er).0)},
		}
	}
	match srv.join() {
		Ok(v) => {
			for x in v {
				emit(x)
			}
		}
		Err(_) => emit(obj! {"k" => s("panic"), "op" => s("server")}),
	}
	emit(obj! {"k" => s("port"), "p" => n(port as i64)});
	emit(e);
}
