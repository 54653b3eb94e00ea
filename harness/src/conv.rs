//! Representation scenarios: a message value carried through conversions, observed after each.
use crate::json::{n, s, J};
use crate::util::*;
use std::borrow::Cow;
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::CloseData;
use websocket::ws::dataframe::DataFrame as DfTrait;
use websocket::ws::Message as MsgTrait;
use websocket::{Message, OwnedMessage};

enum V {
	M(Message<'static>),
	O(OwnedMessage),
}

fn start(a: &J) -> V {
	let p = a.get("p").map(unblob).unwrap_or_default();
	let leaked: &'static [u8] = Box::leak(p.clone().into_boxed_slice());
	let text = || std::str::from_utf8(leaked).expect("text");
	let code = a.n_or("code", -1);
	match (a.s("ctor"), a.n("t")) {
		("owned", _) => V::O(mk_owned(a)),
		("from", 1) => V::O(OwnedMessage::from(text().to_string())),
		("from", 2) => V::O(OwnedMessage::from(p)),
		("from", _) => V::O(mk_owned(a)),
		(c, 1) if c == "str" => V::M(Message::text(text())),
		(_, 1) => V::M(Message::text(text().to_string())),
		(c, 8) if code >= 0 && c == "str" => V::M(Message::close_because(code as u16, text())),
		(_, 8) if code >= 0 => V::M(Message::close_because(code as u16, text().to_string())),
		(_, 8) => V::M(Message::close()),
		("str", 2) => V::M(Message::binary(leaked)),
		("cow", 2) => V::M(Message::binary(Cow::Borrowed(leaked))),
		(_, 2) => V::M(Message::binary(p)),
		("str", 9) => V::M(Message::ping(leaked)),
		("cow", 9) => V::M(Message::ping(Cow::Borrowed(leaked))),
		(_, 9) => V::M(Message::ping(p)),
		("str", _) => V::M(Message::pong(leaked)),
		("cow", _) => V::M(Message::pong(Cow::Borrowed(leaked))),
		_ => V::M(Message::pong(p)),
	}
}

fn facts<D: DfTrait + MsgTrait + Clone>(m: &D, e: &mut J) {
	let r = m.reserved();
	e.set("fin", J::B(m.is_last()));
	e.set("rsv", n((r[0] as i64) * 4 + (r[1] as i64) * 2 + r[2] as i64));
	e.set("op", n(m.opcode() as i64));
	e.set("size", n(m.size() as i64));
	e.set("fsm", n(m.frame_size(true) as i64));
	e.set("fsu", n(m.frame_size(false) as i64));
	e.set("msm", n(m.message_size(true) as i64));
	e.set("msu", n(m.message_size(false) as i64));
	let mut w = vec![];
	m.write_payload(&mut w).expect("write_payload");
	e.set("wp", blob(&w));
	e.set("tp", blob(&m.clone().take_payload()));
	let mut a = vec![];
	let ra = m.serialize(&mut a, false);
	let mut b = vec![];
	let rb = m.write_to(&mut b, false);
	e.set("enc", J::B(ra.is_ok() && rb.is_ok()));
	e.set("encs", J::B(a == b));
	e.set("w", parse_frames(&a));
}

pub fn run(sc: &J) {
	let mut v = start(sc);
	let mut op = "new".to_string();
	let mut res = "ok".to_string();
	let mut i = 0;
	loop {
		let mut e = obj! {"k" => s("obs"), "o" => J::S(op.clone()), "r" => J::S(res.clone())};
		match &v {
			V::M(m) => {
				e.set("rep", s("message"));
				e.set("t", n(m.opcode as i64));
				e.set("code", n(m.cd_status_code.map(|x| x as i64).unwrap_or(-1)));
				e.set("p", blob(&m.payload));
				e.set("preds", J::A(vec![]));
				facts(m, &mut e);
			}
			V::O(m) => {
				let (t, c, p) = msg_fields(m);
				e.set("rep", s("owned"));
				e.set("t", n(t));
				e.set("code", n(c));
				e.set("p", p);
				e.set(
					"preds",
					J::A(vec![
						J::B(m.is_close()),
						J::B(m.is_control()),
						J::B(m.is_data()),
						J::B(m.is_ping()),
						J::B(m.is_pong()),
					]),
				);
				facts(m, &mut e);
			}
		}
		emit(e);
		let ops = sc.a("ops");
		if i >= ops.len() {
			break;
		}
		op = ops[i].str().to_string();
		i += 1;
		res = "ok".into();
		v = match (op.as_str(), v) {
			("own", V::M(m)) => V::O(OwnedMessage::from(m)),
			("msg", V::O(m)) => V::M(Message::from(m)),
			("into", V::M(m)) => V::O(m.into()),
			("into", V::O(m)) => V::M(m.into()),
			("pong", V::M(mut m)) => {
				if m.into_pong().is_err() {
					res = "err".into();
				}
				V::M(m)
			}
			("clone", V::M(m)) => V::M(m.clone()),
			("clone", V::O(m)) => V::O(m.clone()),
			("reframe", V::M(m)) => {
				// the message as a data frame, and a message made from it again
				match Message::from_dataframes(vec![m]) {
					Ok(m) => V::M(m),
					Err(_) => return emit(obj! {"k" => s("lost")}),
				}
			}
			("reframe", V::O(m)) => match OwnedMessage::from_dataframes(vec![m]) {
				Ok(m) => V::O(m),
				Err(_) => return emit(obj! {"k" => s("lost")}),
			},
			("split", V::M(m)) => {
				let (t, d) = (m.opcode(), m.take_payload());
				match Message::from_dataframes(vec![DataFrame::new(true, Opcode::new(t).unwrap(), d)]) {
					Ok(m) => V::M(m),
					Err(_) => return emit(obj! {"k" => s("lost")}),
				}
			}
			("split", V::O(m)) => {
				let (t, d) = (m.opcode(), m.take_payload());
				match OwnedMessage::from_dataframes(vec![DataFrame::new(true, Opcode::new(t).unwrap(), d)]) {
					Ok(m) => V::O(m),
					Err(_) => return emit(obj! {"k" => s("lost")}),
				}
			}
			("cd", V::O(OwnedMessage::Close(Some(c)))) => {
				let b = CloseData::new(c.status_code, c.reason.clone()).into_bytes().expect("into_bytes");
				emit(obj! {"k" => s("cd"), "b" => blob(&b)});
				V::O(OwnedMessage::Close(Some(c)))
			}
			(_, v) => {
				op = "nop".into();
				v
			}
		};
	}
}
