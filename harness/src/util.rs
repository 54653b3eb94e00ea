//! Blobs (run-length encoded payloads), an independent frame encoder/decoder, allocation accounting.
use crate::json::{n, J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use websocket::message::{CloseData, OwnedMessage};

pub fn blob(data: &[u8]) -> J {
	let mut out: Vec<(u8, i64)> = vec![];
	for &b in data {
		match out.last_mut() {
			Some((x, c)) if *x == b => *c += 1,
			_ => out.push((b, 1)),
		}
	}
	J::A(out.into_iter().map(|(b, c)| J::A(vec![n(b as i64), n(c)])).collect())
}

pub fn unblob(j: &J) -> Vec<u8> {
	let mut out = vec![];
	for r in j.arr() {
		let a = r.arr();
		out.resize(out.len() + a[1].num() as usize, a[0].num() as u8);
	}
	out
}

/// Bytes of one scenario item: raw header bytes `h`, then payload blob `p` masked with the key at the
/// end of `h` when the mask bit is set. `rep` repeats the item.
pub fn item_bytes(it: &J) -> Vec<u8> {
	let h = it.get("h").map(|h| h.bytes()).unwrap_or_default();
	let mut p = it.get("p").map(unblob).unwrap_or_default();
	if h.len() >= 6 && h[1] & 0x80 != 0 {
		let k = h[h.len() - 4..].to_vec();
		for (i, b) in p.iter_mut().enumerate() {
			*b ^= k[i & 3];
		}
	}
	let mut v = h;
	v.append(&mut p);
	let rep = it.n_or("rep", 1);
	if rep > 1 {
		let one = v.clone();
		for _ in 1..rep {
			v.extend_from_slice(&one);
		}
	}
	v
}

pub fn stream_bytes(sc: &J) -> Vec<u8> {
	if sc.has("raw") && !sc.a("raw").is_empty() {
		return sc.get("raw").unwrap().bytes();
	}
	let mut v = vec![];
	for it in sc.a("items") {
		v.extend(item_bytes(it));
	}
	v
}

/// Splits bytes written by the code under test into frames, without using its code:
/// every frame becomes { h: header bytes, p: blob of the unmasked payload, z: all bytes or [] when large }.
pub fn parse_frames(mut b: &[u8]) -> J {
	let mut out = vec![];
	while !b.is_empty() {
		if b.len() < 2 {
			out.push(obj! {"h" => J::from_bytes(b), "p" => J::A(vec![]), "z" => J::from_bytes(b)});
			break;
		}
		let l7 = (b[1] & 0x7f) as usize;
		let ext = match l7 {
			126 => 2,
			127 => 8,
			_ => 0,
		};
		let ml = if b[1] & 0x80 != 0 { 4 } else { 0 };
		let hl = 2 + ext + ml;
		if b.len() < hl {
			out.push(obj! {"h" => J::from_bytes(b), "p" => J::A(vec![]), "z" => J::from_bytes(b)});
			break;
		}
		let mut len = if ext == 0 { l7 as u64 } else { 0u64 };
		for i in 0..ext {
			len = (len << 8) | b[2 + i] as u64;
		}
		let take = std::cmp::min(len, (b.len() - hl) as u64) as usize;
		let mut pl = b[hl..hl + take].to_vec();
		if ml == 4 {
			let k = [b[hl - 4], b[hl - 3], b[hl - 2], b[hl - 1]];
			for (i, x) in pl.iter_mut().enumerate() {
				*x ^= k[i & 3];
			}
		}
		let all = &b[..hl + take];
		let z = if all.len() <= 160 { J::from_bytes(all) } else { J::A(vec![]) };
		out.push(obj! {"h" => J::from_bytes(&b[..hl]), "p" => blob(&pl), "z" => z});
		b = &b[hl + take..];
	}
	J::A(out)
}

/// a scenario message {t: opcode, code: -1 or u16, p: blob}
pub fn mk_owned(m: &J) -> OwnedMessage {
	let p = m.get("p").map(unblob).unwrap_or_default();
	let code = m.n_or("code", -1);
	match m.n("t") {
		1 => OwnedMessage::Text(String::from_utf8(p).expect("scenario text")),
		2 => OwnedMessage::Binary(p),
		8 => OwnedMessage::Close(if code >= 0 {
			Some(CloseData::new(code as u16, String::from_utf8(p).expect("scenario reason")))
		} else {
			None
		}),
		9 => OwnedMessage::Ping(p),
		_ => OwnedMessage::Pong(p),
	}
}

pub fn msg_fields(m: &OwnedMessage) -> (i64, i64, J) {
	match m {
		OwnedMessage::Text(t) => (1, -1, blob(t.as_bytes())),
		OwnedMessage::Binary(b) => (2, -1, blob(b)),
		OwnedMessage::Close(None) => (8, -1, J::A(vec![])),
		OwnedMessage::Close(Some(c)) => (8, c.status_code as i64, blob(c.reason.as_bytes())),
		OwnedMessage::Ping(b) => (9, -1, blob(b)),
		OwnedMessage::Pong(b) => (10, -1, blob(b)),
	}
}

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn add(n: usize) {
	let l = LIVE.fetch_add(n, Relaxed) + n;
	PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > 6_000_000_000 {
			return std::ptr::null_mut();
		}
		let p = System.alloc(l);
		if !p.is_null() {
			add(l.size());
		}
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if l.size() > 6_000_000_000 {
			return std::ptr::null_mut();
		}
		let p = System.alloc_zeroed(l);
		if !p.is_null() {
			add(l.size());
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size(), Relaxed);
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if new > 6_000_000_000 {
			return std::ptr::null_mut();
		}
		let q = System.realloc(p, l, new);
		if !q.is_null() {
			LIVE.fetch_sub(l.size(), Relaxed);
			add(new);
		}
		q
	}
}
/// Starts a measurement of the peak of live bytes above the current level.
pub fn peak_start() -> usize {
	let l = LIVE.load(Relaxed);
	PEAK.store(l, Relaxed);
	l
}
pub fn peak_since(base: usize) -> i64 {
	std::cmp::min(PEAK.load(Relaxed).saturating_sub(base), 2_000_000_000) as i64
}

thread_local! { static EV: std::cell::RefCell<Vec<J>> = std::cell::RefCell::new(vec![]); }
/// Records one event of the running scenario.
pub fn emit(e: J) {
	EV.with(|v| v.borrow_mut().push(e))
}
pub fn reset() {
	EV.with(|v| v.borrow_mut().clear())
}
pub fn take() -> Vec<J> {
	EV.with(|v| v.replace(vec![]))
}
