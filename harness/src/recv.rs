//! Receive scenarios: a byte stream, a read schedule, one of the receiving APIs; every call is an event.
use crate::json::{n, s, J};
use crate::mock::*;
use crate::util::*;
use bytes::BytesMut;
use futures::{executor, Async};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::Read;
use std::sync::Arc;
use tokio_codec::{Decoder, Framed, FramedParts};
use websocket::stream::ReadWritePair;
use websocket::client::sync::Client;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::receiver::{Reader, Receiver};
use websocket::sender::Writer;
use websocket::result::WebSocketError;
use websocket::ws::dataframe::DataFrame as DfTrait;
use websocket::ws::Receiver as _;
use websocket::ws::util::header::read_header;
use websocket::ws::Message as _;
use websocket::{Message, OwnedMessage};

pub enum Out {
	Msg(OwnedMessage),
	Frame(DataFrame),
	Err(WebSocketError),
	Wb,
	None,
	End,
	Hang,
}

pub fn err_name(e: &WebSocketError) -> String {
	match e {
		WebSocketError::ProtocolError(_) => "protocol".into(),
		WebSocketError::DataFrameError(_) => "dataframe".into(),
		WebSocketError::NoDataAvailable => "nodata".into(),
		WebSocketError::IoError(e) => format!("io:{:?}", e.kind()),
		WebSocketError::Utf8Error(_) => "utf8".into(),
		WebSocketError::Other(_) => "other".into(),
	}
}

pub fn event(op: &str, out: &Out, src: &Src, had_stops: usize, consumed: i64, peak: i64) -> J {
	let mut wb = false;
	let (k, rest): (&str, Vec<(&str, J)>) = match out {
		Out::Msg(m) => {
			let (t, c, p) = msg_fields(m);
			("msg", vec![("t", n(t)), ("code", n(c)), ("p", p)])
		}
		Out::Frame(f) => {
			let r = &f.reserved;
			let rsv = (r[0] as i64) * 4 + (r[1] as i64) * 2 + r[2] as i64;
			(
				"frame",
				vec![
					("fin", J::B(f.finished)),
					("rsv", n(rsv)),
					("t", n(f.opcode as u8 as i64)),
					("p", blob(&f.data)),
				],
			)
		}
		Out::Err(WebSocketError::NoDataAvailable) => ("eof", vec![]),
		Out::Err(WebSocketError::IoError(e))
			if src.stops > had_stops && Some(e.kind()) == src.last_kind =>
		{
			wb = true;
			("wb", vec![])
		}
		Out::Err(e) => ("err", vec![("e", J::S(err_name(e)))]),
		Out::Wb => {
			wb = true;
			("wb", vec![])
		}
		Out::None => ("none", vec![]),
		Out::End => ("end", vec![]),
		Out::Hang => ("hang", vec![]),
	};
	let a = if wb { src.last_stop } else { src.avail() };
	let mut e = obj! {"op" => s(op), "k" => s(k), "a" => n(a as i64), "c" => n(consumed),
	"st" => n((src.stops - had_stops) as i64), "peak" => n(peak), "eof" => J::B(src.eof_seen)};
	for (x, v) in rest {
		e.set(x, v);
	}
	e
}

enum Ep {
	Recv(Receiver, Rd),
	Client(Client<Duplex>),
	Reader(Reader<Rd>, Writer<Wr>),
	Raw(Rd, bool, Option<usize>),
	Hdr(Rd, bool),
	Parts(Receiver, Rd, bool),
	Pair(Receiver, ReadWritePair<Rd, Wr>),
	Gone,
}

pub fn run(sc: &J) {
	let data = stream_bytes(sc);
	run_data(sc, data)
}

pub fn run_data(sc: &J, data: Vec<u8>) {
	let st = steps(sc.a("feed"));
	let api = sc.s("api").to_string();
	match api.as_str() {
		"codec" | "dfcodec" => run_codec(sc, data),
		"framed" | "framedpre" | "dfframed" => run_framed(sc, data, st),
		_ => run_sync(sc, data, st),
	}
}

fn mkrecv(sc: &J) -> Receiver {
	if sc.b("lim") {
		Receiver::new_with_limits(sc.b("server"), sc.limit("maxf"), sc.limit("maxm"))
	} else {
		Receiver::new(sc.b("server"))
	}
}

fn run_sync(sc: &J, data: Vec<u8>, st: std::collections::VecDeque<Step>) {
	let server = sc.b("server");
	let rd = Rd::new(data, st);
	let src = rd.0.clone();
	let api = sc.s("api");
	let wr = Wr::new(Default::default());
	let mk_client = |pre: usize| -> Client<Duplex> {
		let mut b = BufReader::new(Duplex(rd.clone(), wr.clone()));
		if pre > 0 {
			let mut buf = vec![0u8; pre];
			let mut got = 0;
			while got < pre {
				match rd.clone().read(&mut buf[got..]) {
					Ok(0) => break,
					Ok(k) => got += k,
					Err(_) => {}
				}
			}
			// hand over a buffer that also has a consumed prefix and free space, as after a handshake
			let mut v = vec![0xEEu8; 7];
			v.extend_from_slice(&buf[..got]);
			let cap = v.len();
			v.resize(cap + 64, 0xDD);
			b = BufReader::from_parts(Duplex(rd.clone(), wr.clone()), v, 7, cap);
		}
		if sc.b("lim") {
			Client::unchecked_with_limits(
				b,
				Headers::new(),
				!server,
				server,
				sc.limit("maxf"),
				sc.limit("maxm"),
			)
		} else {
			Client::unchecked(b, Headers::new(), !server, server)
		}
	};
	let mut ep = match api {
		"client" | "citer" | "split" => Ep::Client(mk_client(0)),
		"clientpre" => Ep::Client(mk_client(sc.n("pre") as usize)),
		"reader" | "riter" => {
			let (r, w) = mk_client(sc.n("pre") as usize).split().unwrap();
			Ep::Reader(r, w)
		}
		"rawdf" => Ep::Raw(rd.clone(), server, None),
		"rawhdr" => Ep::Hdr(rd.clone(), server),
		"parts" => Ep::Parts(mkrecv(sc), rd.clone(), false),
		"rawdfl" => Ep::Raw(rd.clone(), server, Some(sc.limit("maxf"))),
		"pair" => Ep::Pair(mkrecv(sc), ReadWritePair(rd.clone(), wr.clone())),
		_ => Ep::Recv(mkrecv(sc), rd.clone()),
	};
	let iter = api.ends_with("iter");
	let ops: Vec<String> = sc.a("rops").iter().map(|x| x.str().to_string()).collect();
	let split_at = sc.n_or("split", -1);
	let max = sc.n_or("max", 100_000);
	let mut after_end = 0;
	// calls made after a refusal
	let mut on = sc.n_or("on", 0);
	let keep = iter && sc.b("keep") && ops.len() < 2;
	let mut kept_m: Option<Box<dyn Iterator<Item = Result<OwnedMessage, WebSocketError>>>> = None;
	let mut kept_d: Option<Box<dyn Iterator<Item = Result<DataFrame, WebSocketError>>>> = None;
	for i in 0..max {
		if split_at == i && api == "split" {
			ep = match std::mem::replace(&mut ep, Ep::Gone) {
				Ep::Client(c) => {
					let (r, w) = c.split().unwrap();
					Ep::Reader(r, w)
				}
				x => x,
			};
		}
		let op = if let Ep::Raw(..) | Ep::Hdr(..) = ep {
			"d"
		} else if ops.is_empty() {
			"m"
		} else {
			&ops[(i as usize) % ops.len()]
		};
		let had = src.lock().unwrap().stops;
		let base = peak_start();
		// one iterator for the whole stream, or a new one for every item
		if keep && kept_m.is_none() && kept_d.is_none() {
			unsafe {
				match (&mut ep, op) {
					(Ep::Recv(r, rd), "m") => kept_m = Some(Box::new((*(r as *mut Receiver)).incoming_messages(&mut *(rd as *mut Rd)))),
					(Ep::Recv(r, rd), _) => kept_d = Some(Box::new((*(r as *mut Receiver)).incoming_dataframes(&mut *(rd as *mut Rd)))),
					(Ep::Client(c), "m") => kept_m = Some(Box::new((*(c as *mut Client<Duplex>)).incoming_messages())),
					(Ep::Client(c), _) => kept_d = Some(Box::new((*(c as *mut Client<Duplex>)).incoming_dataframes())),
					(Ep::Reader(c, _), "m") => kept_m = Some(Box::new((*(c as *mut Reader<Rd>)).incoming_messages())),
					(Ep::Reader(c, _), _) => kept_d = Some(Box::new((*(c as *mut Reader<Rd>)).incoming_dataframes())),
					_ => {}
				}
			}
		}
		let out = match (&mut ep, op) {
			_ if kept_m.is_some() => kept_m.as_mut().unwrap().next().map_or(Out::End, wrapm),
			_ if kept_d.is_some() => kept_d.as_mut().unwrap().next().map_or(Out::End, wrapf),
			(Ep::Recv(r, rd), "m") if iter => wrapm(r.incoming_messages(rd).next().unwrap()),
			(Ep::Recv(r, rd), "m") => wrapm(r.recv_message(rd)),
			(Ep::Recv(r, rd), _) if iter => wrapf(r.incoming_dataframes(rd).next().unwrap()),
			(Ep::Recv(r, rd), _) => wrapf(r.recv_dataframe(rd)),
			(Ep::Pair(r, rd), "m") => wrapm(r.recv_message(rd)),
			(Ep::Pair(r, rd), _) => wrapf(r.recv_dataframe(rd)),
			(Ep::Client(c), "m") if iter => wrapm(c.incoming_messages().next().unwrap()),
			(Ep::Client(c), "m") => wrapm(c.recv_message()),
			(Ep::Client(c), _) if iter => wrapf(c.incoming_dataframes().next().unwrap()),
			(Ep::Client(c), _) => wrapf(c.recv_dataframe()),
			(Ep::Reader(c, _), "m") if iter => wrapm(c.incoming_messages().next().unwrap()),
			(Ep::Reader(c, _), "m") => wrapm(c.recv_message()),
			(Ep::Reader(c, _), _) if iter => wrapf(c.incoming_dataframes().next().unwrap()),
			(Ep::Reader(c, _), _) => wrapf(c.recv_dataframe()),
			(Ep::Raw(rd, m, None), _) => wrapf(DataFrame::read_dataframe(rd, *m)),
			(Ep::Raw(rd, m, Some(l)), _) => wrapf(DataFrame::read_dataframe_with_limit(rd, *m, *l)),
			(Ep::Hdr(rd, m), _) => wrapf(by_parts(rd, *m)),
			(Ep::Parts(r, rd, borrowed), "m") => {
				*borrowed = !*borrowed;
				wrapm(r.recv_message_dataframes(rd).and_then(|v| {
					if *borrowed {
						Message::from_dataframes(v).map(OwnedMessage::from)
					} else {
						OwnedMessage::from_dataframes(v)
					}
				}))
			}
			(Ep::Parts(r, rd, _), _) => wrapf(r.recv_dataframe(rd)),
			(Ep::Gone, _) => Out::Hang,
		};
		let peak = peak_since(base);
		let sr = src.lock().unwrap();
		let c = match ep {
			Ep::Recv(..) | Ep::Raw(..) | Ep::Pair(..) | Ep::Hdr(..) | Ep::Parts(..) => sr.pos as i64,
			_ => -1,
		};
		let e = event(op, &out, &sr, had, c, peak);
		let k = e.s("k").to_string();
		let eof = sr.eof_seen;
		drop(sr);
		emit(e);
		match k.as_str() {
			"err" if !eof && on > 0 => on -= 1,
			"err" | "eof" | "end" if eof => {
				after_end += 1;
				if after_end >= 2 {
					break;
				}
			}
			"err" | "eof" | "end" | "hang" => break,
			_ => {}
		}
	}
	drop((kept_m, kept_d));
}

/// a frame made of its parts: the header, the payload as it is on the wire, and the two put together
fn by_parts(rd: &mut Rd, server: bool) -> Result<DataFrame, WebSocketError> {
	let h = read_header(rd)?;
	let mut data = vec![];
	let k = rd.take(h.len).read_to_end(&mut data)?;
	if (k as u64) < h.len {
		return Err(WebSocketError::NoDataAvailable);
	}
	DataFrame::read_dataframe_body(h, data, server)
}

fn wrapm(r: Result<OwnedMessage, WebSocketError>) -> Out {
	match r {
		Ok(m) => Out::Msg(m),
		Err(e) => Out::Err(e),
	}
}
fn wrapf(r: Result<DataFrame, WebSocketError>) -> Out {
	match r {
		Ok(m) => Out::Frame(m),
		Err(e) => Out::Err(e),
	}
}

fn ctx(sc: &J) -> Context {
	if sc.b("server") {
		Context::Server
	} else {
		Context::Client
	}
}
fn mcodec(sc: &J) -> MessageCodec<OwnedMessage> {
	if sc.b("lim") {
		MessageCodec::new_with_limits(ctx(sc), sc.limit("maxf"), sc.limit("maxm"))
	} else {
		MessageCodec::new(ctx(sc))
	}
}
fn dcodec(sc: &J) -> DataFrameCodec<DataFrame> {
	if sc.b("lim") {
		DataFrameCodec::new_with_limits(ctx(sc), sc.limit("maxf"))
	} else {
		DataFrameCodec::new(ctx(sc))
	}
}

fn dcodecb(sc: &J) -> DataFrameCodec<Box<dyn DfTrait>> {
	if sc.b("lim") {
		DataFrameCodec::new_with_limits(ctx(sc), sc.limit("maxf"))
	} else {
		DataFrameCodec::new(ctx(sc))
	}
}

/// The codecs used directly: bytes are appended per schedule chunk, decode is called until it wants more.
fn run_codec(sc: &J, data: Vec<u8>) {
	let mut src = Src::new(data.clone(), Default::default());
	let mut buf = BytesMut::with_capacity(sc.n_or("cap", 16) as usize);
	let mut mc = mcodec(sc);
	let mut dc = dcodec(sc);
	let df = sc.s("api") == "dfcodec";
	let mut on = sc.n_or("on", 0);
	let mut cuts: Vec<usize> = vec![];
	let mut tot = 0;
	for x in sc.a("feed") {
		if let J::N(k) = x {
			tot += *k as usize;
			cuts.push(std::cmp::min(tot, data.len()));
		}
	}
	if cuts.last() != Some(&data.len()) {
		cuts.push(data.len());
	}
	let mut fed = 0;
	let ncuts = cuts.len();
	for (ci, cut) in cuts.into_iter().enumerate() {
		buf.extend_from_slice(&data[fed..cut]);
		fed = cut;
		src.pos = fed;
		let last = ci + 1 == ncuts;
		loop {
			let base = peak_start();
			let out = if df {
				match dc.decode(&mut buf) {
					Ok(Some(f)) => Out::Frame(f),
					Ok(None) => Out::None,
					Err(e) => Out::Err(e),
				}
			} else {
				match mc.decode(&mut buf) {
					Ok(Some(m)) => Out::Msg(m),
					Ok(None) => Out::None,
					Err(e) => Out::Err(e),
				}
			};
			let peak = peak_since(base);
			let mut e = event(if df { "d" } else { "m" }, &out, &src, 0, (fed - buf.len()) as i64, peak);
			fix_a(&mut e, fed);
			let k = e.s("k").to_string();
			emit(e);
			match k.as_str() {
				"msg" | "frame" => continue,
				"none" => break,
				"err" if on > 0 => on -= 1,
				_ => return,
			}
		}
		if last {
			src.eof_seen = true;
			let out = if df {
				match dc.decode_eof(&mut buf) {
					Ok(Some(f)) => Out::Frame(f),
					Ok(None) => Out::End,
					Err(e) => Out::Err(e),
				}
			} else {
				match mc.decode_eof(&mut buf) {
					Ok(Some(m)) => Out::Msg(m),
					Ok(None) => Out::End,
					Err(e) => Out::Err(e),
				}
			};
			let mut e = event(if df { "d" } else { "m" }, &out, &src, 0, (fed - buf.len()) as i64, 0);
			fix_a(&mut e, fed);
			emit(e);
		}
	}
}

fn fix_a(e: &mut J, a: usize) {
	if let J::O(v) = e {
		for (k, x) in v.iter_mut() {
			if k == "a" {
				*x = n(a as i64);
			}
		}
	}
}

fn run_framed(sc: &J, data: Vec<u8>, st: std::collections::VecDeque<Step>) {
	let api = sc.s("api");
	let rd = Rd::new(data, st);
	let src = rd.0.clone();
	let io = Duplex(rd.clone(), Wr::new(Default::default()));
	let df = api == "dfframed";
	let mut mf: Option<executor::Spawn<Framed<Duplex, MessageCodec<OwnedMessage>>>> = None;
	let mut ff: Option<executor::Spawn<Framed<Duplex, DataFrameCodec<Box<dyn DfTrait>>>>> = None;
	if df {
		ff = Some(executor::spawn(dcodecb(sc).framed(io)));
	} else if api == "framedpre" {
		let pre = sc.n("pre") as usize;
		let mut buf = vec![0u8; pre];
		let mut got = 0;
		while got < pre {
			match rd.clone().read(&mut buf[got..]) {
				Ok(0) => break,
				Ok(k) => got += k,
				Err(_) => {}
			}
		}
		let mut parts = FramedParts::new(io, mcodec(sc));
		parts.read_buf = BytesMut::from(&buf[..got]);
		mf = Some(executor::spawn(Framed::from_parts(parts)));
	} else {
		mf = Some(executor::spawn(mcodec(sc).framed(io)));
	}
	let notify = Arc::new(NoWake);
	let max = sc.n_or("max", 100_000);
	let mut ends = 0;
	let mut on = sc.n_or("on", 0);
	for _ in 0..max {
		let had = src.lock().unwrap().stops;
		let base = peak_start();
		let out = if let Some(f) = ff.as_mut() {
			match f.poll_stream_notify(&notify, 0) {
				Ok(Async::Ready(Some(m))) => Out::Frame(m),
				Ok(Async::Ready(None)) => Out::End,
				Ok(Async::NotReady) => Out::Wb,
				Err(e) => Out::Err(e),
			}
		} else {
			match mf.as_mut().unwrap().poll_stream_notify(&notify, 0) {
				Ok(Async::Ready(Some(m))) => Out::Msg(m),
				Ok(Async::Ready(None)) => Out::End,
				Ok(Async::NotReady) => Out::Wb,
				Err(e) => Out::Err(e),
			}
		};
		let peak = peak_since(base);
		let sr = src.lock().unwrap();
		let out = if let Out::Wb = out {
			if sr.stops == had {
				Out::Hang
			} else {
				Out::Wb
			}
		} else {
			out
		};
		let e = event(if df { "d" } else { "m" }, &out, &sr, had, -1, peak);
		drop(sr);
		let k = e.s("k").to_string();
		emit(e);
		match k.as_str() {
			"err" if on > 0 => on -= 1,
			"err" | "hang" => break,
			"end" | "eof" => {
				ends += 1;
				if ends >= 2 {
					break;
				}
			}
			_ => {}
		}
	}
}
