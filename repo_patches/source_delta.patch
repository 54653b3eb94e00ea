From 9ae492d08fbe8acf3fb806827a09d2624f9a9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 01/13] fix: check the response's Connection header in the
 client handshake

The client compared its own request's Connection header instead of the
server's, so a 101 response without "Connection: upgrade" was accepted
and a request with extra Connection options could never succeed.
---
 src/client/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..8cbb9dc 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,12 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrade = ConnectionOption::ConnectionHeader(UniCase("Upgrade".to_string()));
+		let connection_upgraded = match response.headers.get::<Connection>() {
+			Some(options) => options.contains(&upgrade),
+			None => false,
+		};
+		if !connection_upgraded {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From 05d385f1bbcaccb21304a16816eb71948aebb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 02/13] fix: pass max_message_size to the client made by
 connect_on

The data frame limit was passed twice, so the configured message limit
had no effect on synchronous clients.
---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 8cbb9dc..d97d252 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 29e1fda263cda70df1666d815d64598e4f330887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/13] fix: split extension parameters into name and value

splitn(1, ..) never splits, so "name=value" was parsed as a parameter
called "name=value" without a value.
---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 4a4a5edd2499fd739c74508dfb9832e0d08ad622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 04/13] fix: advance the masking key only by the bytes actually
 written

Masker moved on in its key by the bytes offered even when the endpoint
took fewer of them or failed, so the rest was masked with wrong bytes.
---
 websocket-base/src/ws/util/mask.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..3a9b3eb 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,13 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
-		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+		for (i, &byte) in data.iter().enumerate() {
+			buf.push(byte ^ self.key[(self.pos + i) % self.key.len()]);
 		}
-		self.end.write(&buf)
+		// the caller offers again whatever was not written
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From ba5dcade84e0ea43919383d6422f8a9a407a84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 05/13] fix: do not allocate a payload buffer of the size a
 header claims

A frame header announcing a huge length made read_dataframe panic with
"capacity overflow" (or abort) before any payload had arrived.
---
 websocket-base/src/dataframe.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..06993c9 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -88,7 +88,7 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(initial_capacity(header.len));
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
@@ -107,7 +107,7 @@ impl DataFrame {
 		if header.len > limit as u64 {
 			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		let mut data: Vec<u8> = Vec::with_capacity(initial_capacity(header.len));
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
@@ -150,6 +150,13 @@ impl DataFrameable for DataFrame {
 	}
 }
 
+/// How much to allocate before any of a payload has arrived: the length in a
+/// header is only a claim of the peer, so large payloads are grown as they come.
+fn initial_capacity(len: u64) -> usize {
+	const MAX_INITIAL_CAPACITY: u64 = 1024 * 1024;
+	std::cmp::min(len, MAX_INITIAL_CAPACITY) as usize
+}
+
 /// Represents a WebSocket data frame opcode
 #[derive(Clone, Debug, Copy, PartialEq)]
 pub enum Opcode {
-- 
2.43.0


From e5afae6e01434f58aa38b9e9b22957a636820df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 06/13] fix: apply the message limits from the first fragment
 on

Receiver checked the fragment count and the message size only after
continuation frames, so it went on reading after a first fragment that
already reached the limit.
---
 src/receiver.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..144d8f4 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -147,6 +147,17 @@ impl ws::Receiver for Receiver {
 		};
 
 		while !finished {
+			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded count of data frames in one WebSocket message",
+				));
+			}
+			if current_message_length >= self.max_message_size as usize {
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
+
 			let next = self.recv_dataframe(reader)?;
 			finished = next.finished;
 
@@ -167,19 +178,6 @@ impl ws::Receiver for Receiver {
 					));
 				}
 			}
-
-			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
-			}
 		}
 
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
-- 
2.43.0


From d4fc85285dbb8a419891ebd99d6accd9b18249d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 07/13] fix: refuse upgrade requests whose WebSocket version
 does not parse

An empty, repeated or non-UTF-8 Sec-WebSocket-Version header was treated
like a missing one, so the request was accepted.
---
 src/server/upgrade/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..a098fe0 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,10 +263,11 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
-		}
+	// a version header that cannot be parsed is not the same as none at all
+	if headers.get_raw("Sec-WebSocket-Version").is_some()
+		&& headers.get() != Some(&WebSocketVersion::WebSocket13)
+	{
+		return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
 	}
 
 	if headers.get::<WebSocketKey>().is_none() {
-- 
2.43.0


From ed71ecc3ffc9917a6a5f7c9d94c722d092ef1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 08/13] fix: refuse oversized HTTP heads in the async codecs
 instead of dropping them

---
 src/codec/http.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..bdc5fed 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -101,7 +101,6 @@ impl Decoder for HttpClientCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -195,7 +194,6 @@ impl Decoder for HttpServerCodec {
 					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
 						return Ok(None);
 					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From c02d4a3664c65f61647aca46317c46e68d392869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 09/13] fix: skip empty lines before the start line in the
 async HTTP codecs

---
 src/codec/http.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index bdc5fed..c75df4a 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -63,8 +63,13 @@ use tokio_codec::{Decoder, Encoder};
 pub struct HttpClientCodec;
 
 fn split_off_http(src: &mut BytesMut) -> Option<BytesMut> {
-	match src.windows(4).position(|i| i == b"\r\n\r\n") {
-		Some(p) => Some(src.split_to(p + 4)),
+	// empty lines in front of the start line are not the end of the head
+	let mut start = 0;
+	while src[start..].starts_with(b"\r\n") {
+		start += 2;
+	}
+	match src[start..].windows(4).position(|i| i == b"\r\n\r\n") {
+		Some(p) => Some(src.split_to(start + p + 4)),
 		None => None,
 	}
 }
-- 
2.43.0


From 2cadca4ed2ce3787acc514ef49b4bcb30fba0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 10/13] fix: name a non-default port 80 or 443 in the Host
 header

---
 src/client/builder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index d97d252..7647a2a 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -844,10 +844,13 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			// not hyper's `Host`: it leaves out the ports 80 and 443 even where
+			// they are not the default port of the URL's scheme
+			let host = match self.url.port() {
+				Some(port) => format!("{}:{}", host, port),
+				None => host.to_string(),
+			};
+			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From 2a8bd970ff15da9bae3433fb5800c974152da5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:23 +0000
Subject: [PATCH 11/13] fix: send a key and a version after clear_header
 removed the ones that were set

---
 src/client/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 7647a2a..94ecacb 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -874,11 +874,12 @@ impl<'u> ClientBuilder<'u> {
 			version: None,
 		}]));
 
-		if !self.version_set {
+		// `clear_header` may have taken away what was set
+		if !self.version_set || !self.headers.has::<WebSocketVersion>() {
 			self.headers.set(WebSocketVersion::WebSocket13);
 		}
 
-		if !self.key_set {
+		if !self.key_set || !self.headers.has::<WebSocketKey>() {
 			self.headers.set(WebSocketKey::new());
 		}
 
-- 
2.43.0


From 232a352cdba6f91250c75dfff214f49ee2258f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 12/13] fix: verify TLS peers named by an IPv6 address in the
 URL

The host was handed to the TLS connector with the brackets it has in a URL,
so the certificate of a wss://[..]/ server could never match.
---
 src/client/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 94ecacb..38b827c 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -986,7 +986,8 @@ impl<'u> ClientBuilder<'u> {
 		connector: Option<TlsConnector>,
 	) -> WebSocketResult<(&str, TlsConnector)> {
 		let host = match self.url.host_str() {
-			Some(h) => h,
+			// certificates name an IPv6 address without the brackets it has in a URL
+			Some(h) => h.trim_start_matches('[').trim_end_matches(']'),
 			None => {
 				return Err(WebSocketOtherError::WebSocketUrlError(
 					WSUrlErrorKind::NoHostName,
-- 
2.43.0


From 78bab46afd72036229852bada95351124838d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 13/13] fix: decode the user name and password of a URL before
 sending them

A URL keeps its user name and password percent-encoded, and they were put
in the Authorization header like that, so that a server was told another
password. A password without a user name was not sent at all.
---
 src/client/builder.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 38b827c..43bb671 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -29,6 +29,7 @@ mod common_imports {
 	pub use std::net::TcpStream;
 	pub use std::net::ToSocketAddrs;
 	pub use unicase::UniCase;
+	pub use url::percent_encoding::percent_decode;
 	pub use url::Position;
 }
 #[cfg(any(feature = "sync", feature = "async"))]
@@ -853,14 +854,16 @@ impl<'u> ClientBuilder<'u> {
 			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
-		// handle username/password from URL
-		if !self.url.username().is_empty() {
+		// handle username/password from URL, which keeps them percent-encoded
+		if !self.url.username().is_empty() || self.url.password().is_some() {
+			let decode = |part: &str| {
+				percent_decode(part.as_bytes())
+					.decode_utf8_lossy()
+					.into_owned()
+			};
 			self.headers.set(Authorization(Basic {
-				username: self.url.username().to_owned(),
-				password: match self.url.password() {
-					Some(password) => Some(password.to_owned()),
-					None => None,
-				},
+				username: decode(self.url.username()),
+				password: self.url.password().map(decode),
 			}));
 		}
 
-- 
2.43.0

