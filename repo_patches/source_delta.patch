From 512fb12057c0f80be1d03012e86349c225ffee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 01/21] fix: pass the configured message limit to blocking
 clients

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index f1c200b..199807e 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -515,7 +515,7 @@ impl<'u> ClientBuilder<'u> {
 		// validate
 		self.validate(&response)?;
 
-		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_dataframe_size))
+		Ok(Client::unchecked_with_limits(reader, response.headers, true, false, self.max_dataframe_size, self.max_message_size))
 	}
 
 	/// Connect to a websocket server asynchronously.
-- 
2.43.0


From 14399b637d9ffd1344c2c3625908fa737b304957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 02/21] fix: check the response's Connection header, not the
 request's

---
 src/client/builder.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 199807e..332fee3 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -924,12 +924,14 @@ impl<'u> ClientBuilder<'u> {
 			.map_err(towse);
 		}
 
-		if self.headers.get()
-			!= Some(
-				&(Connection(vec![ConnectionOption::ConnectionHeader(UniCase(
-					"Upgrade".to_string(),
-				))])),
-			) {
+		let upgrades = match response.headers.get() {
+			Some(&Connection(ref options)) => options.iter().any(|option| match *option {
+				ConnectionOption::ConnectionHeader(ref h) => UniCase(h as &str) == UniCase("upgrade"),
+				_ => false,
+			}),
+			None => false,
+		};
+		if !upgrades {
 			return Err(WebSocketOtherError::ResponseError(
 				"Connection field must be 'Upgrade'",
 			))
-- 
2.43.0


From cbfb22086c266afd3e42f6d255290ec6f0c01842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 03/21] fix: split extension parameters into name and value

---
 src/header/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/extensions.rs b/src/header/extensions.rs
index 4d1ef14..0f1d530 100644
--- a/src/header/extensions.rs
+++ b/src/header/extensions.rs
@@ -55,7 +55,7 @@ impl FromStr for Extension {
 			},
 			params: ext
 				.map(|x| {
-					let mut pair = x.splitn(1, '=').map(|x| x.trim().to_string());
+					let mut pair = x.splitn(2, '=').map(|x| x.trim().to_string());
 
 					Parameter {
 						name: pair.next().unwrap(),
-- 
2.43.0


From 5ef0ee2407ac54cd69cdafe66b1764b018ac5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 04/21] fix: keep the mask offset in step with the bytes
 actually written

---
 websocket-base/src/ws/util/mask.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/websocket-base/src/ws/util/mask.rs b/websocket-base/src/ws/util/mask.rs
index 301b445..821cc9b 100644
--- a/websocket-base/src/ws/util/mask.rs
+++ b/websocket-base/src/ws/util/mask.rs
@@ -26,11 +26,12 @@ impl<'w> Masker<'w> {
 impl<'w> Write for Masker<'w> {
 	fn write(&mut self, data: &[u8]) -> IoResult<usize> {
 		let mut buf = Vec::with_capacity(data.len());
-		for &byte in data.iter() {
-			buf.push(byte ^ self.key[self.pos]);
-			self.pos = (self.pos + 1) % self.key.len();
+		for (i, &byte) in data.iter().enumerate() {
+			buf.push(byte ^ self.key[(self.pos + i) % self.key.len()]);
 		}
-		self.end.write(&buf)
+		let written = self.end.write(&buf)?;
+		self.pos = (self.pos + written) % self.key.len();
+		Ok(written)
 	}
 
 	fn flush(&mut self) -> IoResult<()> {
-- 
2.43.0


From a228303e0c394e0e58038a52cd32df1f32089620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 05/21] fix: do not allocate a frame's announced length up
 front

---
 websocket-base/src/dataframe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index eb3d2e4..a067955 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -88,7 +88,8 @@ impl DataFrame {
 	{
 		let header = dfh::read_header(reader)?;
 
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
+		// the announced length is the peer's claim, do not trust it for the allocation
+		let mut data: Vec<u8> = Vec::with_capacity(header.len.min(64 * 1024) as usize);
 		let read = reader.take(header.len).read_to_end(&mut data)?;
 		if (read as u64) < header.len {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
-- 
2.43.0


From 6c51205683a1f9439835be02217b5fb324303031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 06/21] fix: apply the message limit from the first fragment
 and drop refused messages

---
 src/receiver.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index 9f67729..afa25cc 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -147,6 +147,19 @@ impl ws::Receiver for Receiver {
 		};
 
 		while !finished {
+			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+				self.buffer.clear();
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded count of data frames in one WebSocket message",
+				));
+			}
+			if current_message_length >= self.max_message_size as usize {
+				self.buffer.clear();
+				return Err(WebSocketError::ProtocolError(
+					"Exceeded maximum WebSocket message size",
+				));
+			}
+
 			let next = self.recv_dataframe(reader)?;
 			finished = next.finished;
 
@@ -167,19 +180,6 @@ impl ws::Receiver for Receiver {
 					));
 				}
 			}
-
-			if !finished {
-				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded count of data frames in one WebSocket message",
-					));
-				}
-				if current_message_length >= self.max_message_size as usize {
-					return Err(WebSocketError::ProtocolError(
-						"Exceeded maximum WebSocket message size",
-					));
-				}
-			}
 		}
 
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
-- 
2.43.0


From c1dd20aadb6a64e8225328b625dd000db578bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 07/21] fix: drop the fragments of a refused message in the
 codec

---
 websocket-base/src/codec/ws.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index c28e8b9..018b932 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -310,11 +310,13 @@ where
 				return Ok(Some(OwnedMessage::from_dataframes(buffer)?));
 			} else {
 				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
+					self.buffer.clear();
 					return Err(WebSocketError::ProtocolError(
 						"Exceeded count of data frames in one WebSocket message",
 					));
 				}
 				if current_message_length > self.max_message_size as usize {
+					self.buffer.clear();
 					return Err(WebSocketError::ProtocolError(
 						"Exceeded maximum WebSocket message size",
 					));
-- 
2.43.0


From 09cd50f6106d303130f57de13c7210c284a22b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 08/21] fix: report complete HTTP heads that cannot be parsed

---
 src/codec/http.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index af30bcd..d9bfdd7 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -98,10 +98,6 @@ impl Decoder for HttpClientCodec {
 			Some(buf) => {
 				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
 				let res = match parse_response(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
@@ -192,10 +188,6 @@ impl Decoder for HttpServerCodec {
 			Some(buf) => {
 				let mut reader = BufReader::with_capacity(&*buf as &[u8], buf.len());
 				let res = match parse_request(&mut reader) {
-					Err(hyper::Error::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {
-						return Ok(None);
-					}
-					Err(hyper::Error::TooLarge) => return Ok(None),
 					Err(e) => return Err(e.into()),
 					Ok(r) => r,
 				};
-- 
2.43.0


From ee9d356c8cffe0c32e6156118d82dbe034a75496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 09/21] fix: do not take leading empty lines for a complete
 HTTP head

---
 src/codec/http.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index d9bfdd7..c3a9dcb 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -63,8 +63,10 @@ use tokio_codec::{Decoder, Encoder};
 pub struct HttpClientCodec;
 
 fn split_off_http(src: &mut BytesMut) -> Option<BytesMut> {
-	match src.windows(4).position(|i| i == b"\r\n\r\n") {
-		Some(p) => Some(src.split_to(p + 4)),
+	// empty lines before the start line are not the end of the head
+	let start = src.iter().take_while(|&&b| b == b'\r' || b == b'\n').count();
+	match src[start..].windows(4).position(|i| i == b"\r\n\r\n") {
+		Some(p) => Some(src.split_to(start + p + 4)),
 		None => None,
 	}
 }
-- 
2.43.0


From cd6173b08109760f77e8a536d8c6af5c9cee2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 10/21] fix: refuse an unintelligible Sec-WebSocket-Version

---
 src/server/upgrade/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/upgrade/mod.rs b/src/server/upgrade/mod.rs
index c49c012..158465e 100644
--- a/src/server/upgrade/mod.rs
+++ b/src/server/upgrade/mod.rs
@@ -263,10 +263,10 @@ pub fn validate(
 		return Err(HyperIntoWsError::UnsupportedHttpVersion);
 	}
 
-	if let Some(version) = headers.get::<WebSocketVersion>() {
-		if version != &WebSocketVersion::WebSocket13 {
-			return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
-		}
+	if headers.has::<WebSocketVersion>()
+		&& headers.get::<WebSocketVersion>() != Some(&WebSocketVersion::WebSocket13)
+	{
+		return Err(HyperIntoWsError::UnsupportedWebsocketVersion);
 	}
 
 	if headers.get::<WebSocketKey>().is_none() {
-- 
2.43.0


From aae692686b446a12a138d4d7f680aca3860ed0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 11/21] fix: keep an explicit port in the Host header

---
 src/client/builder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 332fee3..05e77f4 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -19,7 +19,7 @@ mod common_imports {
 	pub use crate::result::{WSUrlErrorKind, WebSocketError, WebSocketOtherError, WebSocketResult};
 	pub use crate::stream::{self, Stream};
 	pub use hyper::buffer::BufReader;
-	pub use hyper::header::{Connection, ConnectionOption, Host, Protocol, ProtocolName, Upgrade};
+	pub use hyper::header::{Connection, ConnectionOption, Protocol, ProtocolName, Upgrade};
 	pub use hyper::http::h1::parse_response;
 	pub use hyper::http::h1::Incoming;
 	pub use hyper::http::RawStatus;
@@ -844,10 +844,12 @@ impl<'u> ClientBuilder<'u> {
 	fn build_request(&mut self) -> String {
 		// enter host if available (unix sockets don't have hosts)
 		if let Some(host) = self.url.host_str() {
-			self.headers.set(Host {
-				hostname: host.to_string(),
-				port: self.url.port(),
-			});
+			// formatted here because hyper leaves out 80 and 443 whatever the scheme
+			let host = match self.url.port() {
+				Some(port) => format!("{}:{}", host, port),
+				None => host.to_string(),
+			};
+			self.headers.set_raw("Host", vec![host.into_bytes()]);
 		}
 
 		// handle username/password from URL
-- 
2.43.0


From 5283f53e93b4749070300e16fd90eecc2972ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 12/21] fix: keep the bytes of a frame when a blocking read has
 to wait

---
 src/receiver.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index afa25cc..484ad84 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -1,7 +1,7 @@
 //! The default implementation of a WebSocket Receiver.
 
-use std::io::Read;
 use std::io::Result as IoResult;
+use std::io::{ErrorKind, Read};
 
 use hyper::buffer::BufReader;
 
@@ -78,6 +78,8 @@ where
 /// DataFrames and Messages.
 pub struct Receiver {
 	buffer: Vec<DataFrame>,
+	// bytes of a frame whose reading was interrupted by a lack of data
+	partial: Vec<u8>,
 	mask: bool,
 	// u32s instead uf usizes to economize used memory by this struct
 	max_dataframe_size: u32,
@@ -103,6 +105,7 @@ impl Receiver {
 		let max_message_size: u32 = max_message_size.min(u32::MAX as usize) as u32;
 		Receiver {
 			buffer: Vec::new(),
+			partial: Vec::new(),
 			mask,
 			max_dataframe_size,
 			max_message_size,
@@ -110,6 +113,30 @@ impl Receiver {
 	}
 }
 
+/// Reads from `kept` first and then from `inner`, adding what it reads to `kept`.
+struct Resume<'a, R: 'a> {
+	kept: &'a mut Vec<u8>,
+	pos: usize,
+	inner: &'a mut R,
+}
+
+impl<'a, R> Read for Resume<'a, R>
+where
+	R: Read,
+{
+	fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
+		let n = if self.pos < self.kept.len() {
+			(&self.kept[self.pos..]).read(buf)?
+		} else {
+			let n = self.inner.read(buf)?;
+			self.kept.extend_from_slice(&buf[..n]);
+			n
+		};
+		self.pos += n;
+		Ok(n)
+	}
+}
+
 impl ws::Receiver for Receiver {
 	type F = DataFrame;
 
@@ -120,7 +147,26 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		DataFrame::read_dataframe_with_limit(reader, self.mask, self.max_dataframe_size as usize)
+		let frame = DataFrame::read_dataframe_with_limit(
+			&mut Resume {
+				kept: &mut self.partial,
+				pos: 0,
+				inner: reader,
+			},
+			self.mask,
+			self.max_dataframe_size as usize,
+		);
+
+		match frame {
+			// the rest of the frame may arrive later
+			Err(WebSocketError::IoError(ref e))
+				if e.kind() == ErrorKind::WouldBlock
+					|| e.kind() == ErrorKind::TimedOut
+					|| e.kind() == ErrorKind::Interrupted => {}
+			_ => self.partial = Vec::new(),
+		}
+
+		frame
 	}
 
 	/// Returns the data frames that constitute one message.
-- 
2.43.0


From 1c0f45b031f4004bccd0cd07da7914b08a2dec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 13/21] fix: take only the canonical base64 of keys and accept
 values

The accept value is computed from the canonical text of a key, so a server
that admits an unpadded or otherwise differently written key answers with
a value the client cannot accept.
---
 websocket-base/src/header.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/websocket-base/src/header.rs b/websocket-base/src/header.rs
index ac18d9a..90dae06 100644
--- a/websocket-base/src/header.rs
+++ b/websocket-base/src/header.rs
@@ -34,6 +34,11 @@ impl FromStr for WebSocketKey {
 
 	fn from_str(key: &str) -> WebSocketResult<WebSocketKey> {
 		match base64::decode(key) {
+			// the accept value is computed from the text of the key, so a key
+			// that would be written differently cannot be honoured
+			Ok(ref vec) if base64::encode(vec) != key => Err(WebSocketError::ProtocolError(
+				"Invalid Sec-WebSocket-Key",
+			)),
 			Ok(vec) => {
 				if vec.len() != 16 {
 					return Err(WebSocketError::ProtocolError(
@@ -81,6 +86,9 @@ impl FromStr for WebSocketAccept {
 
 	fn from_str(accept: &str) -> WebSocketResult<WebSocketAccept> {
 		match base64::decode(accept) {
+			Ok(ref vec) if base64::encode(vec) != accept => Err(WebSocketError::ProtocolError(
+				"Invalid Sec-WebSocket-Accept",
+			)),
 			Ok(vec) => {
 				if vec.len() != 20 {
 					return Err(WebSocketError::ProtocolError(
-- 
2.43.0


From 51bbde521fa631fc1f9328f6641ca53b0437f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 14/21] fix: provide a key and version after their header was
 cleared

clear_header left key_set and version_set behind, so the request was sent
without a key or version.
---
 src/client/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 05e77f4..076fd45 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -386,6 +386,9 @@ impl<'u> ClientBuilder<'u> {
 		H: Header + HeaderFormat,
 	{
 		self.headers.remove::<H>();
+		// a key or version that is gone has to be provided when connecting
+		self.key_set &= self.headers.has::<WebSocketKey>();
+		self.version_set &= self.headers.has::<WebSocketVersion>();
 		self
 	}
 
-- 
2.43.0


From 0abff7f17eafc4cd31bae0a2fd413264cb20761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 15/21] fix: send credentials of addresses with a password but
 no user name

---
 src/client/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 076fd45..19f0102 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -856,7 +856,7 @@ impl<'u> ClientBuilder<'u> {
 		}
 
 		// handle username/password from URL
-		if !self.url.username().is_empty() {
+		if !self.url.username().is_empty() || self.url.password().is_some() {
 			self.headers.set(Authorization(Basic {
 				username: self.url.username().to_owned(),
 				password: match self.url.password() {
-- 
2.43.0


From 8c49c0e1a9dbe8149adb0265ff17174e5c77c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 16/21] fix: hand back a partially received frame from
 into_stream

---
 src/client/sync.rs | 9 ++++++++-
 src/receiver.rs    | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client/sync.rs b/src/client/sync.rs
index 017a890..78edd85 100644
--- a/src/client/sync.rs
+++ b/src/client/sync.rs
@@ -310,7 +310,14 @@ where
 	/// `(byte_buffer: Vec<u8>, buffer_capacity: usize, buffer_position: usize)`
 	pub fn into_stream(self) -> (S, Option<(Vec<u8>, usize, usize)>) {
 		let (stream, buf, pos, cap) = self.stream.into_parts();
-		(stream, Some((buf, pos, cap)))
+		// a frame that was only partially received is still unread
+		let mut kept = self.receiver.into_partial();
+		if kept.is_empty() {
+			return (stream, Some((buf, pos, cap)));
+		}
+		kept.extend_from_slice(&buf[pos..cap]);
+		let cap = kept.len();
+		(stream, Some((kept, 0, cap)))
 	}
 
 	/// Returns an iterator over incoming messages.
diff --git a/src/receiver.rs b/src/receiver.rs
index 484ad84..cbbc0c2 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -111,6 +111,11 @@ impl Receiver {
 			max_message_size,
 		}
 	}
+
+	/// The bytes of a frame whose reading was interrupted by a lack of data.
+	pub(crate) fn into_partial(self) -> Vec<u8> {
+		self.partial
+	}
 }
 
 /// Reads from `kept` first and then from `inner`, adding what it reads to `kept`.
-- 
2.43.0


From eb38541500930b85f72257a9587bcdb92506567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 17/21] fix: check certificates of IPv6 hosts against the
 address without brackets

---
 src/client/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/builder.rs b/src/client/builder.rs
index 19f0102..7b61252 100644
--- a/src/client/builder.rs
+++ b/src/client/builder.rs
@@ -989,7 +989,8 @@ impl<'u> ClientBuilder<'u> {
 		connector: Option<TlsConnector>,
 	) -> WebSocketResult<(&str, TlsConnector)> {
 		let host = match self.url.host_str() {
-			Some(h) => h,
+			// the brackets around an IPv6 address are not part of the certificate's name
+			Some(h) => h.trim_start_matches('[').trim_end_matches(']'),
 			None => {
 				return Err(WebSocketOtherError::WebSocketUrlError(
 					WSUrlErrorKind::NoHostName,
-- 
2.43.0


From 1e784454bfb2eed7129974fef2d3360413154674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 18/21] fix: end an HTTP head at its empty line, whatever its
 line ends

---
 src/codec/http.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codec/http.rs b/src/codec/http.rs
index c3a9dcb..542463f 100644
--- a/src/codec/http.rs
+++ b/src/codec/http.rs
@@ -65,10 +65,13 @@ pub struct HttpClientCodec;
 fn split_off_http(src: &mut BytesMut) -> Option<BytesMut> {
 	// empty lines before the start line are not the end of the head
 	let start = src.iter().take_while(|&&b| b == b'\r' || b == b'\n').count();
-	match src[start..].windows(4).position(|i| i == b"\r\n\r\n") {
-		Some(p) => Some(src.split_to(start + p + 4)),
-		None => None,
-	}
+	// the parser takes lines ending in a bare line feed too
+	let end = (start..src.len()).find_map(|i| match &src[i..] {
+		[b'\n', b'\r', b'\n', ..] => Some(i + 3),
+		[b'\n', b'\n', ..] => Some(i + 2),
+		_ => None,
+	});
+	end.map(|end| src.split_to(end))
 }
 
 impl Encoder for HttpClientCodec {
-- 
2.43.0


From 24e69149aed5e97ab80aac240f35cd824ba33db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 19/21] fix: keep the length of a fragmented message while it
 grows instead of adding it up again on every call

---
 src/receiver.rs                | 13 +++++++++----
 websocket-base/src/codec/ws.rs | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index cbbc0c2..fc808c9 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -78,6 +78,8 @@ where
 /// DataFrames and Messages.
 pub struct Receiver {
 	buffer: Vec<DataFrame>,
+	// accumulated length of the frames in the buffer
+	buffered_length: usize,
 	// bytes of a frame whose reading was interrupted by a lack of data
 	partial: Vec<u8>,
 	mask: bool,
@@ -105,6 +107,7 @@ impl Receiver {
 		let max_message_size: u32 = max_message_size.min(u32::MAX as usize) as u32;
 		Receiver {
 			buffer: Vec::new(),
+			buffered_length: 0,
 			partial: Vec::new(),
 			mask,
 			max_dataframe_size,
@@ -179,7 +182,6 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
 		let mut finished = if self.buffer.is_empty() {
 			let first = self.recv_dataframe(reader)?;
 
@@ -190,7 +192,7 @@ impl ws::Receiver for Receiver {
 			}
 
 			let finished = first.finished;
-			current_message_length += first.data.len() + PER_DATAFRAME_OVERHEAD;
+			self.buffered_length += first.data.len() + PER_DATAFRAME_OVERHEAD;
 			self.buffer.push(first);
 			finished
 		} else {
@@ -200,12 +202,14 @@ impl ws::Receiver for Receiver {
 		while !finished {
 			if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
 				self.buffer.clear();
+				self.buffered_length = 0;
 				return Err(WebSocketError::ProtocolError(
 					"Exceeded count of data frames in one WebSocket message",
 				));
 			}
-			if current_message_length >= self.max_message_size as usize {
+			if self.buffered_length >= self.max_message_size as usize {
 				self.buffer.clear();
+				self.buffered_length = 0;
 				return Err(WebSocketError::ProtocolError(
 					"Exceeded maximum WebSocket message size",
 				));
@@ -217,7 +221,7 @@ impl ws::Receiver for Receiver {
 			match next.opcode as u8 {
 				// Continuation opcode
 				0 => {
-					current_message_length += next.data.len() + PER_DATAFRAME_OVERHEAD;
+					self.buffered_length += next.data.len() + PER_DATAFRAME_OVERHEAD;
 					self.buffer.push(next)
 				}
 				// Control frame
@@ -233,6 +237,7 @@ impl ws::Receiver for Receiver {
 			}
 		}
 
+		self.buffered_length = 0;
 		Ok(::std::mem::replace(&mut self.buffer, Vec::new()))
 	}
 }
diff --git a/websocket-base/src/codec/ws.rs b/websocket-base/src/codec/ws.rs
index 018b932..d7c304c 100644
--- a/websocket-base/src/codec/ws.rs
+++ b/websocket-base/src/codec/ws.rs
@@ -221,6 +221,8 @@ where
 	M: MessageTrait,
 {
 	buffer: Vec<DataFrame>,
+	// accumulated length of the frames in the buffer
+	buffered_length: usize,
 	dataframe_codec: DataFrameCodec<DataFrame>,
 	message_type: PhantomData<fn(M)>,
 	max_message_size: u32,
@@ -261,6 +263,7 @@ where
 		let max_message_size: u32 = max_message_size.min(u32::MAX as usize) as u32;
 		MessageCodec {
 			buffer: Vec::new(),
+			buffered_length: 0,
 			dataframe_codec: DataFrameCodec::new_with_limits(context, max_dataframe_size),
 			message_type: PhantomData,
 			max_message_size,
@@ -276,7 +279,6 @@ where
 	type Error = WebSocketError;
 
 	fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-		let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();
 		while let Some(frame) = self.dataframe_codec.decode(src)? {
 			let is_first = self.buffer.is_empty();
 			let finished = frame.finished;
@@ -300,23 +302,26 @@ where
 				}
 				// its good
 				_ => {
-					current_message_length += frame.data.len() + PER_DATAFRAME_OVERHEAD;
+					self.buffered_length += frame.data.len() + PER_DATAFRAME_OVERHEAD;
 					self.buffer.push(frame);
 				}
 			};
 
 			if finished {
 				let buffer = mem::replace(&mut self.buffer, Vec::new());
+				self.buffered_length = 0;
 				return Ok(Some(OwnedMessage::from_dataframes(buffer)?));
 			} else {
 				if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE {
 					self.buffer.clear();
+					self.buffered_length = 0;
 					return Err(WebSocketError::ProtocolError(
 						"Exceeded count of data frames in one WebSocket message",
 					));
 				}
-				if current_message_length > self.max_message_size as usize {
+				if self.buffered_length > self.max_message_size as usize {
 					self.buffer.clear();
+					self.buffered_length = 0;
 					return Err(WebSocketError::ProtocolError(
 						"Exceeded maximum WebSocket message size",
 					));
-- 
2.43.0


From dc1f0ff05c1ca867290bbfd1ff603fc88a1748d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 20/21] fix: go on reading a half-received frame where it was
 left instead of copying it again on every attempt

---
 src/receiver.rs                 | 40 +++++++++++++++++++++------------
 websocket-base/src/dataframe.rs | 21 +++++++++++++----
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/receiver.rs b/src/receiver.rs
index fc808c9..c66947e 100644
--- a/src/receiver.rs
+++ b/src/receiver.rs
@@ -2,6 +2,7 @@
 
 use std::io::Result as IoResult;
 use std::io::{ErrorKind, Read};
+use std::mem;
 
 use hyper::buffer::BufReader;
 
@@ -13,6 +14,7 @@ use crate::stream::sync::{AsTcpStream, Stream};
 use crate::ws;
 use crate::ws::receiver::Receiver as ReceiverTrait;
 use crate::ws::receiver::{DataFrameIterator, MessageIterator};
+use crate::ws::util::header::read_header;
 
 const DEFAULT_MAX_DATAFRAME_SIZE : usize = 1024*1024*100;
 const DEFAULT_MAX_MESSAGE_SIZE : usize = 1024*1024*200;
@@ -80,8 +82,8 @@ pub struct Receiver {
 	buffer: Vec<DataFrame>,
 	// accumulated length of the frames in the buffer
 	buffered_length: usize,
-	// bytes of a frame whose reading was interrupted by a lack of data
-	partial: Vec<u8>,
+	// header and payload of a frame whose reading was interrupted by a lack of data
+	partial: (Vec<u8>, Vec<u8>),
 	mask: bool,
 	// u32s instead uf usizes to economize used memory by this struct
 	max_dataframe_size: u32,
@@ -108,7 +110,7 @@ impl Receiver {
 		Receiver {
 			buffer: Vec::new(),
 			buffered_length: 0,
-			partial: Vec::new(),
+			partial: (Vec::new(), Vec::new()),
 			mask,
 			max_dataframe_size,
 			max_message_size,
@@ -117,7 +119,25 @@ impl Receiver {
 
 	/// The bytes of a frame whose reading was interrupted by a lack of data.
 	pub(crate) fn into_partial(self) -> Vec<u8> {
-		self.partial
+		let (mut header, payload) = self.partial;
+		header.extend_from_slice(&payload);
+		header
+	}
+
+	/// Reads on where the last attempt was interrupted.
+	fn resume_dataframe<R>(&mut self, reader: &mut R) -> WebSocketResult<DataFrame>
+	where
+		R: Read,
+	{
+		let (ref mut kept, ref mut payload) = self.partial;
+		let header = read_header(&mut Resume {
+			kept,
+			pos: 0,
+			inner: reader,
+		})?;
+		let limit = self.max_dataframe_size as usize;
+		DataFrame::read_dataframe_payload(reader, &header, payload, limit)?;
+		DataFrame::read_dataframe_body(header, mem::replace(payload, Vec::new()), self.mask)
 	}
 }
 
@@ -155,15 +175,7 @@ impl ws::Receiver for Receiver {
 	where
 		R: Read,
 	{
-		let frame = DataFrame::read_dataframe_with_limit(
-			&mut Resume {
-				kept: &mut self.partial,
-				pos: 0,
-				inner: reader,
-			},
-			self.mask,
-			self.max_dataframe_size as usize,
-		);
+		let frame = self.resume_dataframe(reader);
 
 		match frame {
 			// the rest of the frame may arrive later
@@ -171,7 +183,7 @@ impl ws::Receiver for Receiver {
 				if e.kind() == ErrorKind::WouldBlock
 					|| e.kind() == ErrorKind::TimedOut
 					|| e.kind() == ErrorKind::Interrupted => {}
-			_ => self.partial = Vec::new(),
+			_ => self.partial = (Vec::new(), Vec::new()),
 		}
 
 		frame
diff --git a/websocket-base/src/dataframe.rs b/websocket-base/src/dataframe.rs
index a067955..cf56479 100644
--- a/websocket-base/src/dataframe.rs
+++ b/websocket-base/src/dataframe.rs
@@ -104,17 +104,30 @@ impl DataFrame {
 		R: Read,
 	{
 		let header = dfh::read_header(reader)?;
+		let mut data = Vec::new();
+		DataFrame::read_dataframe_payload(reader, &header, &mut data, limit)?;
 
+		DataFrame::read_dataframe_body(header, data, should_be_masked)
+	}
+
+	/// Reads the payload announced by `header`, as far as it is not already in `data`.
+	///
+	/// What could be read remains in `data` in case of an error.
+	pub fn read_dataframe_payload<R>(reader: &mut R, header: &DataFrameHeader, data: &mut Vec<u8>, limit: usize) -> WebSocketResult<()>
+	where
+		R: Read,
+	{
 		if header.len > limit as u64 {
 			return Err(io::Error::new(io::ErrorKind::InvalidData, "exceeded DataFrame length limit").into());
 		}
-		let mut data: Vec<u8> = Vec::with_capacity(header.len as usize);
-		let read = reader.take(header.len).read_to_end(&mut data)?;
-		if (read as u64) < header.len {
+		let missing = header.len - data.len() as u64;
+		data.reserve_exact(missing as usize);
+		let read = reader.take(missing).read_to_end(data)?;
+		if (read as u64) < missing {
 			return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete payload").into());
 		}
 
-		DataFrame::read_dataframe_body(header, data, should_be_masked)
+		Ok(())
 	}
 }
 
-- 
2.43.0


From eb3453f4e361fe3216bcf0784d54e059df188fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 21/21] fix: report a close frame with half a status code as a
 protocol error, not as the end of the data

---
 websocket-base/src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket-base/src/message.rs b/websocket-base/src/message.rs
index 8a5be38..fca2c82 100644
--- a/websocket-base/src/message.rs
+++ b/websocket-base/src/message.rs
@@ -228,6 +228,11 @@ impl<'a> ws::Message for Message<'a> {
 			},
 			Some(Opcode::Binary) => Message::binary(data),
 			Some(Opcode::Close) => {
+				if data.len() == 1 {
+					return Err(WebSocketError::ProtocolError(
+						"Incomplete status code in close frame",
+					));
+				}
 				if !data.is_empty() {
 					let status_code = (&data[..]).read_u16::<BigEndian>()?;
 					let reason = bytes_to_string(&data[2..])?;
-- 
2.43.0

