//! Send scenarios: one of the sending APIs over a scripted transport; every call is an event with the
//! number of bytes the transport had accepted when it returned, and the whole wire is given at the end.
use crate::json::{n, s, J};
use crate::mock::*;
use crate::recv::err_name;
use crate::util::*;
use futures::{executor, Async, AsyncSink};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::Write;
use std::sync::Arc;
use tokio_codec::{Decoder, Framed};
use websocket::client::sync::Client;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::receiver::Reader;
use websocket::result::WebSocketError;
use websocket::sender::{Sender, Writer};
use websocket::server::upgrade::r#async::IntoWs as AIntoWs;
use websocket::server::upgrade::sync::IntoWs;
use websocket::stream::ReadWritePair;
use websocket::ws::dataframe::DataFrame as DfTrait;
use websocket::ws::util::header::{write_header, DataFrameFlags, DataFrameHeader};
use websocket::ws::util::mask::{gen_mask, Masker};
use websocket::ws::Message as MsgTrait;
use websocket::ws::Sender as SenderTrait;
use websocket::{ClientBuilder, Message, OwnedMessage};

pub const REQ: &[u8] = b"GET /chat HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
pub const RESP: &[u8] = b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
pub const KEY: &[u8; 16] = b"the sample nonce";

pub fn mk_df(a: &J) -> DataFrame {
	let mut d = DataFrame::new(
		a.b("fin"),
		Opcode::new(a.n("t") as u8).expect("opcode"),
		a.get("p").map(unblob).unwrap_or_default(),
	);
	let r = a.n("rsv");
	d.reserved = [r & 4 != 0, r & 2 != 0, r & 1 != 0];
	d
}

/// a borrowed/owned `Message` made with its public constructors
pub fn mk_msg(a: &J) -> Message<'static> {
	let p = a.get("p").map(unblob).unwrap_or_default();
	let code = a.n_or("code", -1);
	match a.n("t") {
		1 => Message::text(String::from_utf8(p).expect("text")),
		2 => Message::binary(p),
		8 if code >= 0 => Message::close_because(code as u16, String::from_utf8(p).expect("reason")),
		8 => Message::close(),
		9 => Message::ping(p),
		_ => Message::pong(p),
	}
}

pub enum Ep {
	Sender(Sender, Wr),
	Client(Client<Duplex>),
	Writer(Reader<Rd>, Writer<Wr>),
	Raw(Wr, bool),
	Hdr(Wr, bool),
	Both(Client<Duplex>, bool, bool),
	Pair(Client<ReadWritePair<Rd, Wr>>),
	Pairs(Sender, ReadWritePair<Rd, Wr>),
}

/// a connected blocking endpoint; returns it with the number of handshake bytes written
pub fn connect_sync(role: &str, rd: Rd, wr: &Wr) -> (Client<Duplex>, usize) {
	let d = Duplex(rd, wr.clone());
	let c = if role == "acc" {
		IntoWs::into_ws(d).ok().expect("handshake").accept().ok().expect("accept")
	} else {
		ClientBuilder::new("ws://h/chat").unwrap().key(*KEY).connect_on(d).expect("connect")
	};
	let n = wr.len();
	(c, n)
}

pub fn connect_async(role: &str, rd: Rd, wr: &Wr) -> (Framed<Duplex, MessageCodec<OwnedMessage>>, usize) {
	let d = Duplex(rd, wr.clone());
	let notify = Arc::new(NoWake);
	let c = if role == "aacc" {
		let mut f = executor::spawn(AIntoWs::into_ws(d));
		let up = match f.poll_future_notify(&notify, 0) {
			Ok(Async::Ready(u)) => u,
			_ => panic!("handshake"),
		};
		let mut f = executor::spawn(up.accept());
		match f.poll_future_notify(&notify, 0) {
			Ok(Async::Ready((c, _))) => c,
			_ => panic!("accept"),
		}
	} else {
		let mut f = executor::spawn(ClientBuilder::new("ws://h/chat").unwrap().key(*KEY).async_connect_on(d));
		match f.poll_future_notify(&notify, 0) {
			Ok(Async::Ready((c, _))) => c,
			_ => panic!("connect"),
		}
	};
	let n = wr.len();
	(c, n)
}

pub fn head_for(api: &str) -> Vec<u8> {
	if api.contains("acc") {
		REQ.to_vec()
	} else {
		RESP.to_vec()
	}
}

/// replaces the scripts of a writer after the handshake
pub fn rescript(wr: &Wr, st: std::collections::VecDeque<Step>) {
	let mut w = wr.0.lock().unwrap();
	w.steps = st;
	w.cur = 0;
	w.stops = 0;
}

pub fn run(sc: &J) {
	let api = sc.s("api").to_string();
	match api.as_str() {
		"mcodec" | "msgcodec" | "dcodec" | "aacc" | "aconn" | "paircodec" => run_async(sc, &api),
		_ => run_sync(sc, &api),
	}
}

fn sizes<D: DfTrait>(d: &D) -> (i64, i64) {
	(d.frame_size(true) as i64, d.frame_size(false) as i64)
}
fn msizes<M: MsgTrait>(m: &M) -> (i64, i64) {
	(m.message_size(true) as i64, m.message_size(false) as i64)
}

pub fn open_sync(api: &str, mask: bool, wr: &Wr) -> (Ep, usize) {
	let rd = Rd::new(vec![], Default::default());
	let mk = |rd: Rd| Client::unchecked(BufReader::new(Duplex(rd, wr.clone())), Headers::new(), mask, !mask);
	match api {
		"client" => (Ep::Client(mk(rd)), 0),
		"writer" => {
			let (r, w) = mk(rd).split().unwrap();
			(Ep::Writer(r, w), 0)
		}
		"acc" | "conn" => {
			let (c, k) = connect_sync(api, Rd::new(head_for(api), Default::default()), wr);
			(Ep::Client(c), k)
		}
		"accsplit" | "connsplit" => {
			let role = &api[..api.len() - 5];
			let (c, k) = connect_sync(role, Rd::new(head_for(role), Default::default()), wr);
			let (r, w) = c.split().unwrap();
			(Ep::Writer(r, w), k)
		}
		"header" => (Ep::Hdr(wr.clone(), mask), 0),
		"wmut" => (Ep::Both(mk(rd), mask, false), 0),
		"serialize" => (Ep::Raw(wr.clone(), mask), 0),
		"pairclient" => (Ep::Pair(Client::unchecked(BufReader::new(ReadWritePair(rd, wr.clone())), Headers::new(), mask, !mask)), 0),
		"pairsender" => (Ep::Pairs(Sender::new(mask), ReadWritePair(rd, wr.clone())), 0),
		_ => (Ep::Sender(Sender::new(mask), wr.clone()), 0),
	}
}

/// one blocking send call
pub fn send(ep: &mut Ep, a: &J) -> (Result<(), WebSocketError>, (i64, i64)) {
	match a.s("o") {
		"df" => {
			let d = mk_df(a);
			let z = sizes(&d);
			(send_df(ep, &d), z)
		}
		"owndf" => {
			let d = mk_owned(a);
			let z = sizes(&d);
			(send_df(ep, &d), z)
		}
		"msgdf" => {
			let d = mk_msg(a);
			let z = sizes(&d);
			(send_df(ep, &d), z)
		}
		"msg" => {
			let m = mk_msg(a);
			let z = msizes(&m);
			(send_msg(ep, &m), z)
		}
		"pong" => {
			// a ping turned into a pong in place, or an owned pong made from it
			let mut m = Message::ping(a.get("p").map(unblob).unwrap_or_default());
			m.into_pong().expect("into_pong of a ping");
			let z = msizes(&m);
			(send_msg(ep, &m), z)
		}
		_ => {
			let m = mk_owned(a);
			let z = msizes(&m);
			(send_msg(ep, &m), z)
		}
	}
}
/// header, masking writer and payload by hand
fn by_parts<D: DfTrait>(w: &mut Wr, masked: bool, d: &D) -> Result<(), WebSocketError> {
	let r = d.reserved();
	let mut flags = DataFrameFlags::empty();
	for (on, f) in [(d.is_last(), DataFrameFlags::FIN), (r[0], DataFrameFlags::RSV1), (r[1], DataFrameFlags::RSV2), (r[2], DataFrameFlags::RSV3)].iter() {
		if *on {
			flags.insert(*f);
		}
	}
	let mask = if masked { Some(gen_mask()) } else { None };
	let mut buf = vec![];
	write_header(&mut buf, DataFrameHeader { flags, opcode: d.opcode(), mask, len: d.size() as u64 })?;
	match mask {
		Some(k) => d.write_payload(&mut Masker::new(k, &mut buf))?,
		None => d.write_payload(&mut buf)?,
	}
	w.write_all(&buf)?;
	Ok(())
}
fn send_df<D: DfTrait>(ep: &mut Ep, d: &D) -> Result<(), WebSocketError> {
	match ep {
		Ep::Sender(s, w) => s.send_dataframe(w, d),
		Ep::Client(c) => c.send_dataframe(d),
		Ep::Writer(_, w) => w.send_dataframe(d),
		Ep::Raw(w, m) => d.write_to(w, *m),
		Ep::Hdr(w, m) => by_parts(w, *m, d),
		Ep::Both(c, m, odd) => {
			*odd = !*odd;
			if *odd {
				d.write_to(c.writer_mut(), *m)
			} else {
				c.send_dataframe(d)
			}
		}
		Ep::Pair(c) => c.send_dataframe(d),
		Ep::Pairs(s, w) => s.send_dataframe(w, d),
	}
}
fn send_msg<M: MsgTrait>(ep: &mut Ep, d: &M) -> Result<(), WebSocketError> {
	match ep {
		Ep::Sender(s, w) => s.send_message(w, d),
		Ep::Client(c) => c.send_message(d),
		Ep::Writer(_, w) => w.send_message(d),
		Ep::Raw(w, m) => d.serialize(w, *m),
		Ep::Hdr(w, m) => d.serialize(w, *m),
		Ep::Both(c, m, odd) => {
			*odd = !*odd;
			if *odd {
				d.serialize(c.writer_mut(), *m)
			} else {
				c.send_message(d)
			}
		}
		Ep::Pair(c) => c.send_message(d),
		Ep::Pairs(s, w) => s.send_message(w, d),
	}
}

fn run_sync(sc: &J, api: &str) {
	let wr = Wr::new(Default::default());
	let base = run_sync_into(sc, api, &wr);
	let all = wr.taken();
	emit(obj! {"k" => s("wire"), "w" => parse_frames(&all[base..]), "n" => n((all.len() - base) as i64)});
}

pub fn run_sync_into(sc: &J, api: &str, wr: &Wr) -> usize {
	let (mut ep, base) = open_sync(api, sc.b("mask"), wr);
	rescript(&wr, steps(sc.a("sched")));
	for a in sc.a("ops") {
		let had = wr.0.lock().unwrap().stops;
		let (r, (zm, zu)) = send(&mut ep, a);
		let w = wr.0.lock().unwrap();
		emit(obj! {"k" => s("send"), "r" => s(if r.is_ok() { "ok" } else { "err" }),
			"e" => J::S(r.as_ref().err().map(err_name).unwrap_or_default()), "a" => a.clone(), "zm" => n(zm), "zu" => n(zu),
			"n" => n((w.out.len() - base) as i64), "st" => n((w.stops - had) as i64), "failed" => J::B(w.failed)});
		if r.is_err() && w.stops > had {
			break;
		}
	}
	base
}

enum Snk3 {
	Pair(executor::Spawn<Framed<ReadWritePair<Rd, Wr>, MessageCodec<OwnedMessage>>>),
	Own(executor::Spawn<Framed<Duplex, MessageCodec<OwnedMessage>>>),
	Msg(executor::Spawn<Framed<Duplex, MessageCodec<Message<'static>>>>),
	Df(executor::Spawn<Framed<Duplex, DataFrameCodec<Box<dyn DfTrait>>>>),
}

fn run_async(sc: &J, api: &str) {
	let wr = Wr::new(Default::default());
	let base = run_async_into(sc, api, &wr);
	let all = wr.taken();
	emit(obj! {"k" => s("wire"), "w" => parse_frames(&all[base..]), "n" => n((all.len() - base) as i64)});
}

pub fn run_async_into(sc: &J, api: &str, wr: &Wr) -> usize {
	let ctx = || if sc.b("mask") { Context::Client } else { Context::Server };
	let mut base = 0;
	let io = Duplex(Rd::new(vec![], Default::default()), wr.clone());
	let mut sink = match api {
		"paircodec" => Snk3::Pair(executor::spawn(MessageCodec::default(ctx()).framed(ReadWritePair(Rd::new(vec![], Default::default()), wr.clone())))),
		"mcodec" => Snk3::Own(executor::spawn(MessageCodec::default(ctx()).framed(io))),
		"msgcodec" => Snk3::Msg(executor::spawn(MessageCodec::new(ctx()).framed(io))),
		"dcodec" => Snk3::Df(executor::spawn(DataFrameCodec::new(ctx()).framed(io))),
		_ => {
			let (f, k) = connect_async(api, Rd::new(head_for(api), Default::default()), &wr);
			base = k;
			Snk3::Own(executor::spawn(f))
		}
	};
	rescript(&wr, steps(sc.a("sched")));
	if sc.has("hold") {
		wr.0.lock().unwrap().hold = Some(sc.n("hold") as usize);
	}
	let notify = Arc::new(NoWake);
	let mut dead = false;
	let flush = |sink: &mut Snk3| -> bool {
		let had = wr.0.lock().unwrap().stops;
		let r = match sink {
			Snk3::Own(f) => f.poll_flush_notify(&notify, 0),
			Snk3::Pair(f) => f.poll_flush_notify(&notify, 0),
			Snk3::Msg(f) => f.poll_flush_notify(&notify, 0),
			Snk3::Df(f) => f.poll_flush_notify(&notify, 0),
		};
		let w = wr.0.lock().unwrap();
		let (k, e) = match &r {
			Ok(Async::Ready(())) => ("ready", String::new()),
			Ok(Async::NotReady) => ("wait", String::new()),
			Err(e) => ("err", err_name(e)),
		};
		emit(obj! {"k" => s("flush"), "r" => s(k), "e" => J::S(e), "n" => n((w.out.len() - base) as i64),
			"st" => n((w.stops - had) as i64), "failed" => J::B(w.failed)});
		r.is_err()
	};
	'ops: for a in sc.a("ops") {
		if a.s("o") == "flush" {
			if flush(&mut sink) {
				dead = true;
				break;
			}
			continue;
		}
		// another codec over the same transport: what is queued goes with it
		if a.s("o") == "swap" {
			use websocket::ws::util::update_framed_codec as swap;
			sink = match sink {
				Snk3::Own(f) => Snk3::Own(executor::spawn(swap(f.into_inner(), MessageCodec::default(ctx())))),
				Snk3::Pair(f) => Snk3::Pair(executor::spawn(swap(f.into_inner(), MessageCodec::default(ctx())))),
				Snk3::Msg(f) => Snk3::Msg(executor::spawn(swap(f.into_inner(), MessageCodec::new(ctx())))),
				Snk3::Df(f) => Snk3::Df(executor::spawn(swap(f.into_inner(), DataFrameCodec::new(ctx())))),
			};
			continue;
		}
		let mut tries = 0;
		loop {
			let had = wr.0.lock().unwrap().stops;
			let (r, zm, zu): (Result<bool, WebSocketError>, i64, i64) = match &mut sink {
				Snk3::Own(f) => {
					let m = mk_owned(a);
					let (x, y) = msizes(&m);
					(f.start_send_notify(m, &notify, 0).map(|x| x == AsyncSink::Ready), x, y)
				}
				Snk3::Pair(f) => {
					let m = mk_owned(a);
					let (x, y) = msizes(&m);
					(f.start_send_notify(m, &notify, 0).map(|x| x == AsyncSink::Ready), x, y)
				}
				Snk3::Msg(f) => {
					let m = mk_msg(a);
					let (x, y) = msizes(&m);
					(f.start_send_notify(m, &notify, 0).map(|x| x.is_ready()), x, y)
				}
				Snk3::Df(f) => {
					let (m, (x, y)): (Box<dyn DfTrait>, (i64, i64)) = match a.s("o") {
						"df" => {
							let d = mk_df(a);
							let z = sizes(&d);
							(Box::new(d), z)
						}
						"own" | "owndf" => {
							let d = mk_owned(a);
							let z = sizes(&d);
							(Box::new(d), z)
						}
						_ => {
							let d = mk_msg(a);
							let z = sizes(&d);
							(Box::new(d), z)
						}
					};
					(f.start_send_notify(m, &notify, 0).map(|x| x.is_ready()), x, y)
				}
			};
			let w = wr.0.lock().unwrap();
			let (k, e) = match &r {
				Ok(true) => ("ok", String::new()),
				Ok(false) => ("full", String::new()),
				Err(e) => ("err", err_name(e)),
			};
			emit(obj! {"k" => s("start"), "r" => s(k), "e" => J::S(e), "a" => a.clone(), "zm" => n(zm), "zu" => n(zu),
				"n" => n((w.out.len() - base) as i64), "st" => n((w.stops - had) as i64), "failed" => J::B(w.failed)});
			let failed = w.failed;
			drop(w);
			if r.is_err() && failed {
				dead = true;
				break 'ops;
			}
			if let Ok(false) = r {
				tries += 1;
				if tries > 2000 {
					emit(obj! {"k" => s("hang"), "op" => s("start")});
					return base;
				}
				if flush(&mut sink) {
					dead = true;
					break 'ops;
				}
				continue;
			}
			break;
		}
	}
	let mut tries = 0;
	while !dead && tries < 5000 {
		tries += 1;
		let before = wr.len();
		let had = wr.0.lock().unwrap().stops;
		if flush(&mut sink) {
			break;
		}
		let w = wr.0.lock().unwrap();
		if w.stops == had && w.out.len() == before && tries > 1 {
			break;
		}
		if w.stops == had && w.steps.is_empty() {
			break;
		}
	}
	base
}

/// The masking writer used directly: a key, a division into writes, a sink script.
fn columns(d: &[u8]) -> J {
	J::A((0..4).map(|c| blob(&d.iter().skip(c).step_by(4).cloned().collect::<Vec<u8>>())).collect())
}

pub fn run_mask(sc: &J) {
	use std::io::Write;
	use websocket::ws::util::mask::{gen_mask, mask_data, Masker};
	let mut data = sc.get("p").map(unblob).unwrap_or_default();
	let kb = sc.get("key").unwrap().bytes();
	let key = [kb[0], kb[1], kb[2], kb[3]];
	let mut wr = Wr::new(steps(sc.a("sched")));
	let mode = sc.s("mode");
	match mode {
		"data" => {
			// the slice lies anywhere in a larger one
			let off = sc.n_or("off", 0) as usize;
			let mut big = vec![0xA5u8; off];
			big.extend_from_slice(&data);
			big.extend_from_slice(&[0x5A; 9]);
			let o = mask_data(key, &big[off..off + data.len()]);
			let mut big = vec![0u8; off];
			big.extend_from_slice(&o);
			let b = mask_data(key, &big[off..]);
			emit(obj! {"k" => s("data"), "o" => J::from_bytes(&o), "b" => J::from_bytes(&b)});
		}
		// large payloads: the bytes at positions 0, 4, 8, .. and 1, 5, 9, .. and so on, as runs
		"bigdata" => {
			let off = sc.n_or("off", 0) as usize;
			let mut big = vec![0xA5u8; off];
			big.extend_from_slice(&data);
			let o = mask_data(key, &big[off..]);
			let b = mask_data(key, &o);
			emit(obj! {"k" => s("big"), "o" => columns(&o), "b" => columns(&b)});
		}
		"big" => {
			let mut ok = true;
			{
				let mut m = Masker::new(key, &mut wr);
				let flush = sc.b("flush");
				for c in sc.a("cuts") {
					let c = std::cmp::min(c.num() as usize, data.len());
					let part: Vec<u8> = data.drain(..c).collect();
					ok = ok && m.write_all(&part).is_ok();
					ok = ok && (!flush || m.flush().is_ok());
				}
				ok = ok && m.write_all(&data).is_ok() && m.flush().is_ok();
			}
			let o = wr.taken();
			let b = mask_data(key, &o);
			emit(obj! {"k" => s("big"), "r" => s(if ok { "ok" } else { "err" }), "o" => columns(&o), "b" => columns(&b)});
		}
		"gen" => {
			let v: Vec<J> = (0..sc.n("count")).map(|_| J::from_bytes(&gen_mask())).collect();
			emit(obj! {"k" => s("gen"), "keys" => J::A(v)});
		}
		// the keys of a long history of frames sent by one endpoint on one thread
		"stream" => {
			let count = sc.n("count");
			let route = sc.s("route");
			let msg = Message::ping(vec![b'x'; sc.n("len") as usize]);
			let mut out: Vec<u8> = Vec::new();
			let mut sender = Sender::new(true);
			let mut codec = MessageCodec::<Message<'static>>::new(Context::Client);
			let mut dst = bytes::BytesMut::new();
			let mut keys = Vec::new();
			for _ in 0..count {
				out.clear();
				match route {
					"sender" => sender.send_message(&mut out, &msg).expect("send"),
					"codec" => {
						dst.clear();
						tokio_codec::Encoder::encode(&mut codec, msg.clone(), &mut dst).expect("encode");
						out.extend_from_slice(&dst);
					}
					_ => msg.serialize(&mut out, true).expect("serialize"),
				}
				if out.len() < 6 || out[1] & 0x80 == 0 {
					break;
				}
				keys.push(J::from_bytes(&out[2..6]));
			}
			emit(obj! {"k" => s("gen"), "keys" => J::A(keys)});
		}
		_ => {
			let twice = mode == "twice";
			let mut off = 0i64;
			{
				let mut m1 = Masker::new(key, &mut wr);
				let mut m2;
				let m: &mut dyn Write = if twice {
					m2 = Masker::new(key, &mut m1);
					&mut m2
				} else {
					&mut m1
				};
				for c in sc.a("cuts") {
					let c = std::cmp::min(c.num() as usize, data.len());
					let part: Vec<u8> = data.drain(..c).collect();
					if sc.b("flush") {
						let _ = m.flush();
					}
					if sc.b("all") {
						let r = m.write_all(&part);
						emit(obj! {"k" => s("wall"), "r" => s(if r.is_ok() { "ok" } else { "err" }), "d" => n(c as i64)});
						if r.is_err() {
							break;
						}
						continue;
					}
					// plain writes: offer the rest again until taken, as any caller must
					let mut p = 0;
					let mut tries = 0;
					while p < part.len() && tries < 200 {
						tries += 1;
						let r = m.write(&part[p..]);
						let k = match &r {
							Ok(k) => *k as i64,
							Err(_) => -1,
						};
						emit(obj! {"k" => s("w"), "off" => n(off), "d" => n((part.len() - p) as i64), "r" => n(k)});
						if sc.b("flush") && tries % 2 == 1 {
							let _ = m.flush();
						}
						if let Ok(k) = r {
							p += k;
							off += k as i64;
							if k == 0 {
								break;
							}
						}
					}
					if p < part.len() {
						break;
					}
				}
				let _ = m.flush();
			}
			emit(obj! {"k" => s("out"), "o" => J::from_bytes(&wr.taken())});
		}
	}
}
