//! Scripted transports: a reader that hands out bytes in given cuts with interruptions, and a writer
//! with partial writes and failures. Both keep an account of what happened.
use crate::json::J;
use futures::{Async, Poll};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_io::{AsyncRead, AsyncWrite};

#[derive(Clone, Debug)]
pub enum Step {
	Chunk(usize),
	Stop(io::ErrorKind),
	Eof,
}

pub fn kind_of(s: &str) -> io::ErrorKind {
	match s {
		"wb" => io::ErrorKind::WouldBlock,
		"to" => io::ErrorKind::TimedOut,
		"in" => io::ErrorKind::Interrupted,
		"rst" => io::ErrorKind::ConnectionReset,
		_ => io::ErrorKind::Other,
	}
}

pub fn steps(j: &[J]) -> VecDeque<Step> {
	j.iter()
		.map(|x| match x {
			J::N(n) => Step::Chunk(*n as usize),
			J::S(s) if s == "eof" => Step::Eof,
			J::S(s) => Step::Stop(kind_of(s)),
			_ => Step::Eof,
		})
		.collect()
}

/// Source: shared so that the driver can look at the account while the code under test owns a handle.
pub struct Src {
	pub data: Vec<u8>,
	pub pos: usize,
	pub steps: VecDeque<Step>,
	pub cur: usize,
	/// bytes before the last interruption handed out
	pub last_stop: usize,
	pub stops: usize,
	pub last_kind: Option<io::ErrorKind>,
	pub eof_seen: bool,
	pub reads: usize,
	pub wake: Option<futures::task::Task>,
}

impl Src {
	pub fn new(data: Vec<u8>, steps: VecDeque<Step>) -> Src {
		Src {
			data,
			pos: 0,
			steps,
			cur: 0,
			last_stop: 0,
			stops: 0,
			last_kind: None,
			eof_seen: false,
			reads: 0,
			wake: None,
		}
	}
	/// bytes that can be read before the next interruption or end
	pub fn avail(&self) -> usize {
		let mut a = self.pos + self.cur;
		for s in &self.steps {
			match s {
				Step::Chunk(n) => a += n,
				_ => return std::cmp::min(a, self.data.len()),
			}
		}
		self.data.len()
	}
	pub fn exhausted(&self) -> bool {
		self.eof_seen
	}
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.reads += 1;
		if buf.is_empty() {
			return Ok(0);
		}
		loop {
			if self.cur > 0 {
				let n = std::cmp::min(std::cmp::min(self.cur, buf.len()), self.data.len() - self.pos);
				if n > 0 {
					buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
					self.pos += n;
					self.cur -= n;
					return Ok(n);
				}
				self.cur = 0;
			}
			match self.steps.pop_front() {
				Some(Step::Chunk(n)) => self.cur = n,
				Some(Step::Stop(k)) => {
					self.last_stop = self.pos;
					self.stops += 1;
					self.last_kind = Some(k);
					return Err(io::Error::new(k, "scripted"));
				}
				Some(Step::Eof) => {
					self.steps.push_front(Step::Eof);
					self.eof_seen = true;
					return Ok(0);
				}
				None => {
					if self.pos < self.data.len() {
						self.cur = self.data.len() - self.pos;
					} else {
						self.eof_seen = true;
						return Ok(0);
					}
				}
			}
		}
	}
}

#[derive(Clone)]
pub struct Rd(pub Arc<Mutex<Src>>);
impl Rd {
	pub fn new(data: Vec<u8>, st: VecDeque<Step>) -> Rd {
		Rd(Arc::new(Mutex::new(Src::new(data, st))))
	}
}
impl Read for Rd {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let mut s = self.0.lock().unwrap();
		let r = s.read(buf);
		r
	}
}
impl AsyncRead for Rd {}

/// Sink: accepts what its script says, then everything.
pub struct Snk {
	pub out: Vec<u8>,
	pub steps: VecDeque<Step>,
	pub cur: usize,
	pub writes: usize,
	pub flushes: usize,
	pub flushed_to: usize,
	pub failed: bool,
	pub stops: usize,
	/// a transport with a buffer of its own: what it was given reaches the wire with a flush, and that
	/// many flushes with something to do first say that they would block
	pub hold: Option<usize>,
	pub pend: Vec<u8>,
}
impl Snk {
	fn put(&mut self, b: &[u8]) {
		if self.hold.is_some() {
			self.pend.extend_from_slice(b);
		} else {
			self.out.extend_from_slice(b);
		}
	}
}
#[derive(Clone)]
pub struct Wr(pub Arc<Mutex<Snk>>);
impl Wr {
	pub fn new(st: VecDeque<Step>) -> Wr {
		Wr(Arc::new(Mutex::new(Snk {
			out: vec![],
			steps: st,
			cur: 0,
			writes: 0,
			flushes: 0,
			flushed_to: 0,
			failed: false,
			stops: 0,
			hold: None,
			pend: vec![],
		})))
	}
	pub fn taken(&self) -> Vec<u8> {
		self.0.lock().unwrap().out.clone()
	}
	pub fn len(&self) -> usize {
		self.0.lock().unwrap().out.len()
	}
}
impl Write for Wr {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		let mut s = self.0.lock().unwrap();
		s.writes += 1;
		if buf.is_empty() {
			return Ok(0);
		}
		loop {
			if s.cur > 0 {
				let n = std::cmp::min(s.cur, buf.len());
				s.put(&buf[..n]);
				s.cur -= n;
				return Ok(n);
			}
			match s.steps.pop_front() {
				Some(Step::Chunk(n)) => {
					// one write call accepts at most n bytes
					let n = std::cmp::min(n, buf.len());
					s.put(&buf[..n]);
					return Ok(n);
				}
				Some(Step::Stop(k)) => {
					if k != io::ErrorKind::Interrupted {
						s.stops += 1;
					}
					if k != io::ErrorKind::Interrupted && k != io::ErrorKind::WouldBlock {
						s.failed = true;
						s.steps.push_front(Step::Stop(k));
					}
					return Err(io::Error::new(k, "scripted"));
				}
				Some(Step::Eof) => {
					s.steps.push_front(Step::Eof);
					s.failed = true;
					s.stops += 1;
					return Ok(0);
				}
				None => s.cur = usize::MAX,
			}
		}
	}
	fn flush(&mut self) -> io::Result<()> {
		let mut s = self.0.lock().unwrap();
		s.flushes += 1;
		if !s.pend.is_empty() {
			match s.hold {
				Some(k) if k > 0 => {
					s.hold = Some(k - 1);
					s.stops += 1;
					return Err(io::ErrorKind::WouldBlock.into());
				}
				_ => {
					let p = std::mem::replace(&mut s.pend, vec![]);
					s.out.extend_from_slice(&p);
				}
			}
		}
		s.flushed_to = s.out.len();
		Ok(())
	}
}
impl AsyncWrite for Wr {
	fn shutdown(&mut self) -> Poll<(), io::Error> {
		Ok(Async::Ready(()))
	}
}

/// reader + writer as one stream for the code under test
pub struct Duplex(pub Rd, pub Wr);
impl Read for Duplex {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		self.0.read(b)
	}
}
impl Write for Duplex {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.1.write(b)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.1.flush()
	}
}
impl AsyncRead for Duplex {}
impl AsyncWrite for Duplex {
	fn shutdown(&mut self) -> Poll<(), io::Error> {
		Ok(Async::Ready(()))
	}
}
impl websocket::stream::sync::Splittable for Duplex {
	type Reader = Rd;
	type Writer = Wr;
	fn split(self) -> io::Result<(Rd, Wr)> {
		Ok((self.0, self.1))
	}
}

/// polls a futures-0.1 object inside a task that can always be notified
pub struct NoWake;
impl futures::executor::Notify for NoWake {
	fn notify(&self, _: usize) {}
}
