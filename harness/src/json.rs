//! A small JSON reader/writer (objects keep their order). Only what scenarios and traces need.
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
	Null,
	B(bool),
	N(i64),
	S(String),
	A(Vec<J>),
	O(Vec<(String, J)>),
}

impl J {
	pub fn parse(s: &str) -> J {
		let b = s.as_bytes();
		let mut p = 0;
		let v = val(b, &mut p);
		v
	}
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
			_ => None,
		}
	}
	pub fn s(&self, k: &str) -> &str {
		match self.get(k) {
			Some(J::S(s)) => s,
			_ => "",
		}
	}
	pub fn n(&self, k: &str) -> i64 {
		self.n_or(k, 0)
	}
	pub fn n_or(&self, k: &str, d: i64) -> i64 {
		match self.get(k) {
			Some(J::N(n)) => *n,
			_ => d,
		}
	}
	/// A size limit: `x<k>` is the exact number (as text) where `<k>` is only what the specification needs to know.
	pub fn limit(&self, k: &str) -> usize {
		match self.get(&format!("x{}", k)) {
			Some(J::S(n)) => n.parse().expect("a limit"),
			_ => self.n(k) as usize,
		}
	}
	pub fn b(&self, k: &str) -> bool {
		match self.get(k) {
			Some(J::B(b)) => *b,
			_ => false,
		}
	}
	pub fn a(&self, k: &str) -> &[J] {
		match self.get(k) {
			Some(J::A(a)) => a,
			_ => &[],
		}
	}
	pub fn has(&self, k: &str) -> bool {
		self.get(k).is_some()
	}
	pub fn num(&self) -> i64 {
		match self {
			J::N(n) => *n,
			_ => 0,
		}
	}
	pub fn str(&self) -> &str {
		match self {
			J::S(s) => s,
			_ => "",
		}
	}
	pub fn arr(&self) -> &[J] {
		match self {
			J::A(a) => a,
			_ => &[],
		}
	}
	/// an array of small integers as bytes
	pub fn bytes(&self) -> Vec<u8> {
		self.arr().iter().map(|x| x.num() as u8).collect()
	}
	pub fn set(&mut self, k: &str, v: J) {
		if let J::O(o) = self {
			o.push((k.to_string(), v));
		}
	}
	pub fn from_bytes(b: &[u8]) -> J {
		J::A(b.iter().map(|x| J::N(*x as i64)).collect())
	}
}

pub fn s(x: &str) -> J {
	J::S(x.to_string())
}
pub fn n(x: i64) -> J {
	J::N(x)
}
#[macro_export]
macro_rules! obj {
	($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $v)),*]) };
}

fn ws(b: &[u8], p: &mut usize) {
	while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') {
		*p += 1;
	}
}

fn val(b: &[u8], p: &mut usize) -> J {
	ws(b, p);
	match b[*p] {
		b'{' => {
			*p += 1;
			let mut v = vec![];
			loop {
				ws(b, p);
				if b[*p] == b'}' {
					*p += 1;
					return J::O(v);
				}
				if b[*p] == b',' {
					*p += 1;
					continue;
				}
				let k = string(b, p);
				ws(b, p);
				assert!(b[*p] == b':');
				*p += 1;
				let x = val(b, p);
				v.push((k, x));
			}
		}
		b'[' => {
			*p += 1;
			let mut v = vec![];
			loop {
				ws(b, p);
				if b[*p] == b']' {
					*p += 1;
					return J::A(v);
				}
				if b[*p] == b',' {
					*p += 1;
					continue;
				}
				v.push(val(b, p));
			}
		}
		b'"' => J::S(string(b, p)),
		b't' => {
			*p += 4;
			J::B(true)
		}
		b'f' => {
			*p += 5;
			J::B(false)
		}
		b'n' => {
			*p += 4;
			J::Null
		}
		_ => {
			let st = *p;
			while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
				*p += 1;
			}
			J::N(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("number"))
		}
	}
}

fn string(b: &[u8], p: &mut usize) -> String {
	assert!(b[*p] == b'"');
	*p += 1;
	let mut out: Vec<u8> = vec![];
	loop {
		match b[*p] {
			b'"' => {
				*p += 1;
				return String::from_utf8(out).expect("utf8 json");
			}
			b'\\' => {
				*p += 1;
				match b[*p] {
					b'n' => out.push(b'\n'),
					b't' => out.push(b'\t'),
					b'r' => out.push(b'\r'),
					b'b' => out.push(8),
					b'f' => out.push(12),
					b'u' => {
						let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
						let c = u32::from_str_radix(h, 16).unwrap();
						*p += 4;
						let ch = std::char::from_u32(c).unwrap_or('?');
						let mut buf = [0; 4];
						out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
					}
					c => out.push(c),
				}
				*p += 1;
			}
			c => {
				out.push(c);
				*p += 1;
			}
		}
	}
}

fn wstr(f: &mut fmt::Formatter, s: &str) -> fmt::Result {
	use std::fmt::Write;
	f.write_char('"')?;
	for c in s.chars() {
		match c {
			'"' => f.write_str("\\\"")?,
			'\\' => f.write_str("\\\\")?,
			c if (c as u32) < 32 || (c as u32) > 126 => {
				if (c as u32) < 0x10000 {
					write!(f, "\\u{:04x}", c as u32)?
				} else {
					f.write_char('?')?
				}
			}
			c => f.write_char(c)?,
		}
	}
	f.write_char('"')
}

impl fmt::Display for J {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		use std::fmt::Write;
		match self {
			J::Null => f.write_str("null"),
			J::B(b) => write!(f, "{}", b),
			J::N(n) => write!(f, "{}", n),
			J::S(s) => wstr(f, s),
			J::A(a) => {
				f.write_char('[')?;
				for (i, x) in a.iter().enumerate() {
					if i > 0 {
						f.write_char(',')?;
					}
					write!(f, "{}", x)?;
				}
				f.write_char(']')
			}
			J::O(o) => {
				f.write_char('{')?;
				for (i, (k, x)) in o.iter().enumerate() {
					if i > 0 {
						f.write_char(',')?;
					}
					wstr(f, k)?;
					f.write_char(':')?;
					write!(f, "{}", x)?;
				}
				f.write_char('}')
			}
		}
	}
}
