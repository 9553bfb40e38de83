From a1ef6bac8bb53aeea8a36250ddc2e921e4c13084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 01/19] fix: account for all earlier partial writes of a stream
 message

The number of bytes written for the current message was overwritten by
the result of the last write instead of increased, so a message written
in more than one piece was corrupted on the wire.
---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..cdab6c5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -235,10 +235,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From ebf1a0973a78d2959f937f7b2936cc4bbed26b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 02/19] fix: report stream messages with a length shorter than
 the header

The body length was computed as the received length minus the header
length without checking the received length. A length below 12 made the
read loop panic (debug) or wrapped around (release).
---
 src/transport/stream/transport.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdab6c5..9a6f7d8 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -183,7 +183,9 @@ where
 				this.parsed_header = MessageHeader::decode(&this.header_buffer[4..], this.endian)
 					.map_err(TransportError::new_fatal)?;
 
-				// Check body length and create body buffer.
+				// Check message and body length and create body buffer.
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				let body_len = length - crate::HEADER_LEN;
 				check_payload_too_large(body_len as usize, this.max_body_len as usize)
 					.map_err(TransportError::new_fatal)?;
-- 
2.43.0


From 63eaa0f2c491016955c562899e6302c8fadff7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 03/19] fix: do not deliver truncated seqpacket messages

A datagram with a body larger than the configured maximum was cut off at
the maximum and delivered as if it was a complete message. As documented,
drop the message and report an error instead.
---
 src/transport/unix/transport.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..f325669 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,7 +150,8 @@ mod implementation {
 
 			// Prepare buffers for the message header and body.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			// Use a body buffer that is one byte larger than the maximum, to be able to detect messages that are too large.
+			this.body_buffer.resize(this.max_body_len as usize + 1, 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -182,6 +183,11 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Drop messages with a body that is too large.
+			// Note that the excess data is discarded by the kernel, so the exact size is not known.
+			check_payload_too_large(bytes_read - crate::HEADER_LEN as usize, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
-- 
2.43.0


From bd44168ae75a59d7b3210153389568710bc4d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 04/19] fix: enforce the maximum number of file descriptors for
 seqpacket messages

The limits were only used to compute a generous buffer size, so more
file descriptors than configured were sent and accepted. Even more
descriptors were silently dropped from the received message. Report an
error and drop the message instead.
---
 src/transport/unix/transport.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f325669..22f29c5 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -164,6 +164,7 @@ mod implementation {
 
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
+			let fds_truncated = ancillary.is_truncated();
 			let mut fds = Vec::new();
 			for msg in ancillary.into_messages() {
 				if let OwnedAncillaryMessage::FileDescriptors(msg) = msg {
@@ -188,6 +189,15 @@ mod implementation {
 			check_payload_too_large(bytes_read - crate::HEADER_LEN as usize, this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Drop messages with too many file descriptors.
+			// The excess file descriptors may already have been discarded by the kernel.
+			if fds_truncated || fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(std::io::Error::new(
+					std::io::ErrorKind::Other,
+					format!("too many file descriptors attached to message: the maximum is {}", this.max_fds),
+				))));
+			}
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
@@ -206,6 +216,14 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of attached file descriptors.
+			if body.fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(std::io::Error::new(
+					std::io::ErrorKind::Other,
+					format!("too many file descriptors attached to message: the maximum is {}, got {}", this.max_fds, body.fds.len()),
+				))));
+			}
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 30da44baa49ff3722a0b1b3c66474ff3d9ad43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 05/19] fix: keep a request open when its response could not be
 sent

A response that was refused for being too large still closed the request,
so it was impossible to send a smaller response or an error response and
the remote peer was left waiting forever.
---
 src/peer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..f19c91b 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -322,11 +322,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -339,6 +334,12 @@ where
 			return flow;
 		}
 
+		// Remove tracked received requests when we sent a response.
+		// If the response could not be sent, the request is still open.
+		if command.message.header.message_type.is_response() {
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From 21f35a15cefcce7a5a07ddfe711fbab740038f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 06/19] fix: forget requests that are answered because there is
 no read handle

The automatic error response for requests received after the read handle
was dropped did not remove the request from the tracker. If the remote
peer reused the request ID, that request was treated as a duplicate and
never answered.
---
 src/peer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index f19c91b..9011ffa 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -381,6 +381,8 @@ where
 						// Even if the transport doesn't say that the write error is fatal.
 						LoopFlow::Stop
 					} else {
+						// The response has been sent, so the request is finished.
+						let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 						LoopFlow::Continue
 					}
 				},
-- 
2.43.0


From 1b6cca88e61ea0f83c80819497f5bdea1376dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 07/19] fix: do not send messages for a request after its
 response

Whether a request is closed was only checked before a message was put in
the command queue. With multiple write handles, a second response or an
update could be queued while the first response was still being sent, and
end up on the wire after it (possibly hitting a newer request with the
same ID). Check it again right before sending the message.
---
 src/peer.rs        | 18 ++++++++++++++++++
 src/peer_handle.rs |  2 +-
 src/request.rs     |  4 ++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 9011ffa..7c2b298 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
+use crate::error::private::InnerError;
 use crate::{
 	util,
 	Error,
@@ -322,6 +324,14 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
+		// The request may have been closed after the command was queued.
+		if let Some(closed) = &command.closed {
+			if closed.load(Ordering::Acquire) {
+				let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+				return LoopFlow::Continue;
+			}
+		}
+
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -338,6 +348,9 @@ where
 		// If the response could not be sent, the request is still open.
 		if command.message.header.message_type.is_response() {
 			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+			if let Some(closed) = &command.closed {
+				closed.store(true, Ordering::Release);
+			}
 		}
 
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
@@ -445,6 +458,11 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// The closed flag of the request that the message belongs to, if any.
+	///
+	/// The message will not be sent anymore if the request has been closed.
+	pub closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..984a768 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..d2f6532 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
-- 
2.43.0


From b1be2d1a046eded1b62a6be8e58dcd5523b8caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 08/19] Add a hook to position the request ID counter (cfg
 fizyr_rpc_verify)

---
 src/lib.rs             |  5 +++++
 src/request_tracker.rs |  6 ++++++
 src/verify.rs          | 21 +++++++++++++++++++++
 3 files changed, 32 insertions(+)
 create mode 100644 src/verify.rs

diff --git a/src/lib.rs b/src/lib.rs
index 40db008..5913453 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,6 +105,11 @@ mod peer_handle;
 mod request;
 mod request_tracker;
 
+#[allow(unexpected_cfgs)]
+#[cfg(fizyr_rpc_verify)]
+#[doc(hidden)]
+pub mod verify;
+
 pub mod introspection;
 pub mod format;
 pub mod transport;
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..1efc13b 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -56,6 +56,12 @@ impl<Body> RequestTracker<Body> {
 
 	/// Allocate a request ID and register a new sent request.
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
+		#[allow(unexpected_cfgs)]
+		#[cfg(fizyr_rpc_verify)]
+		if let Some(request_id) = crate::verify::take_next_request_id() {
+			self.next_sent_request_id = request_id;
+		}
+
 		// Try to find a free ID a bunch of times.
 		for _ in 0..100 {
 			let request_id = self.next_sent_request_id;
diff --git a/src/verify.rs b/src/verify.rs
new file mode 100644
index 0000000..71108dc
--- /dev/null
+++ b/src/verify.rs
@@ -0,0 +1,21 @@
+//! Hooks for verification tools.
+//!
+//! This module only exists when compiling with `--cfg fizyr_rpc_verify`.
+
+use std::cell::Cell;
+
+thread_local! {
+	static NEXT_REQUEST_ID: Cell<Option<u32>> = const { Cell::new(None) };
+}
+
+/// Set the value of the request ID counter for the next request allocated on this thread.
+///
+/// This allows testing how the counter wraps around without sending 2^32 requests.
+pub fn set_next_request_id(request_id: u32) {
+	NEXT_REQUEST_ID.with(|x| x.set(Some(request_id)));
+}
+
+/// Take the value set by [`set_next_request_id()`].
+pub(crate) fn take_next_request_id() -> Option<u32> {
+	NEXT_REQUEST_ID.with(|x| x.take())
+}
-- 
2.43.0


From 2840a5efae560a692a6032564d181174caba2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 09/19] fix: do not let a flood of incoming messages starve the
 command loop

---
 src/util/select.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/util/select.rs b/src/util/select.rs
index 0e6d3d2..15815c4 100644
--- a/src/util/select.rs
+++ b/src/util/select.rs
@@ -11,6 +11,12 @@ pub enum Either<A, B> {
 
 pub struct Select<A, B> {
 	inner: Option<(A, B)>,
+
+	/// If true, poll the second future first the next time.
+	///
+	/// The order alternates, so that one future which always uses up the whole cooperative scheduling budget of the task
+	/// can not prevent the other from making progress.
+	second_first: bool,
 }
 
 impl<A, B> std::future::Future for Select<A, B>
@@ -21,18 +27,21 @@ where
 	type Output = Either<(A::Output, B), (A, B::Output)>;
 
 	fn poll(mut self: Pin<&mut Self>, context: &mut Context) -> Poll<Self::Output> {
-		let mut this = self.as_mut();
-
-		let pin_a = Pin::new(&mut this.inner.as_mut().unwrap().0);
-		if let Poll::Ready(a) = pin_a.poll(context) {
-			let b = self.inner.take().unwrap().1;
-			return Poll::Ready(Either::Left((a, b)));
-		}
-
-		let pin_b = Pin::new(&mut this.inner.as_mut().unwrap().1);
-		if let Poll::Ready(b) = pin_b.poll(context) {
-			let a = self.inner.take().unwrap().0;
-			return Poll::Ready(Either::Right((a, b)));
+		let this = &mut *self;
+		let second_first = this.second_first;
+		this.second_first = !second_first;
+
+		for poll_second in [second_first, !second_first] {
+			let (first, second) = this.inner.as_mut().unwrap();
+			if poll_second {
+				if let Poll::Ready(b) = Pin::new(second).poll(context) {
+					let a = this.inner.take().unwrap().0;
+					return Poll::Ready(Either::Right((a, b)));
+				}
+			} else if let Poll::Ready(a) = Pin::new(first).poll(context) {
+				let b = this.inner.take().unwrap().1;
+				return Poll::Ready(Either::Left((a, b)));
+			}
 		}
 
 		Poll::Pending
@@ -44,5 +53,5 @@ where
 	A: Future + Unpin,
 	B: Future + Unpin,
 {
-	Select { inner: Some((a, b)) }
+	Select { inner: Some((a, b)), second_first: false }
 }
-- 
2.43.0


From bd446521e3b0f99449159164c48e455d6155109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 10/19] fix: keep listening when a client is gone before it is
 accepted

---
 src/listener.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..3b92970 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -100,7 +100,15 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	{
 		let mut task = task;
 		loop {
-			let (peer, info) = self.accept().await?;
+			let (connection, _addr) = self.listener.accept().await?;
+			let transport = Socket::into_transport(connection, self.config.clone());
+			// If there is no information about the remote, the connection is already gone again.
+			// That is no reason to stop accepting other connections.
+			let info = match Socket::transport_info(&transport) {
+				Ok(x) => x,
+				Err(_) => continue,
+			};
+			let peer = Socket::spawn(transport);
 			let join_handle = tokio::spawn((task)(peer, info));
 			// TODO: keep join handles around so we can await them later.
 			// If we do, we should also clean them from time to time though.
-- 
2.43.0


From 2fe1e84e08857f88508df032a54b0a82355c8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 11/19] fix: make interfaces without services and streams
 compile

---
 macros/src/interface/generate/server.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/macros/src/interface/generate/server.rs b/macros/src/interface/generate/server.rs
index 72c84a6..bf8f59d 100644
--- a/macros/src/interface/generate/server.rs
+++ b/macros/src/interface/generate/server.rs
@@ -55,7 +55,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 			Stream(StreamMessage),
 		});
 		received_msg_debug_arms.extend(quote! {
-			Self::Stream(message) => {
+			Self::Stream(ref message) => {
 				f.debug_tuple("Stream")
 					.field(&message)
 					.finish()
@@ -96,7 +96,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 			Request(ReceivedRequestHandle<F>),
 		});
 		received_msg_debug_arms.extend(quote! {
-			Self::Request(request_handle) => {
+			Self::Request(ref request_handle) => {
 				f.debug_tuple("Request")
 					.field(&request_handle)
 					.finish()
@@ -186,8 +186,10 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 		where
 			#received_msg_where
 		{
+			#[allow(unused_variables)] // `f` is not used if the interface is empty.
 			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-				match self {
+				// Dereference `self`: a reference to an enum without variants can not be matched without arms.
+				match *self {
 					#received_msg_debug_arms
 				}
 			}
-- 
2.43.0


From 8d0ff5b2d1ccb25d688a1b25d05a6b436cb79a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 12/19] fix: report repeated duplicate names in an interface
 instead of panicking

---
 macros/src/interface/parse.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..7444d7e 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -11,6 +11,7 @@
 pub mod cooked {
 	use crate::util::{parse_doc_attr_contents, WithSpan};
 	use proc_macro2::Span;
+	use std::collections::BTreeSet;
 	use syn::spanned::Spanned;
 	use super::raw;
 
@@ -177,8 +178,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_services = Vec::new();
-			let mut remove_streams = Vec::new();
+			let mut remove_services = BTreeSet::new();
+			let mut remove_streams = BTreeSet::new();
 
 			for (a_i, a) in services.iter().enumerate() {
 				for (b_i, b) in services.iter().enumerate().skip(a_i + 1) {
@@ -187,7 +188,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate service name"));
-						remove_services.push(b_i);
+						remove_services.insert(b_i);
 					}
 				}
 			}
@@ -199,7 +200,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate stream name"));
-						remove_streams.push(b_i);
+						remove_streams.insert(b_i);
 					}
 				}
 			}
@@ -280,8 +281,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_request_updates = Vec::new();
-			let mut remove_response_updates = Vec::new();
+			let mut remove_request_updates = BTreeSet::new();
+			let mut remove_response_updates = BTreeSet::new();
 
 			for (a_i, a) in request_updates.iter().enumerate() {
 				for (b_i, b) in request_updates.iter().enumerate().skip(a_i + 1) {
@@ -290,7 +291,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate request update name"));
-						remove_request_updates.push(b_i);
+						remove_request_updates.insert(b_i);
 					}
 				}
 			}
@@ -302,7 +303,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate response update name"));
-						remove_response_updates.push(b_i);
+						remove_response_updates.insert(b_i);
 					}
 				}
 			}
-- 
2.43.0


From 3336bbcac9314a1249a6e41667b8b8d6d161141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 13/19] fix: accept raw identifiers as names in an interface

---
 macros/src/interface/generate/message_enum.rs | 9 +++++----
 macros/src/interface/generate/server.rs       | 7 ++++---
 macros/src/interface/generate/services.rs     | 5 +++--
 macros/src/interface/generate/streams.rs      | 3 ++-
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index a312345..791392e 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{TokenStream, Span};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::interface::parse::cooked::MessageDefinition;
 
@@ -15,7 +16,7 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 	let mut encode_all = TokenStream::new();
 	let mut impl_tokens = TokenStream::new();
 	for message in messages {
-		let variant_name = to_upper_camel_case(&message.name().to_string());
+		let variant_name = to_upper_camel_case(&message.name().unraw().to_string());
 		let variant_name = syn::Ident::new(&variant_name, message.name().span());
 		let variant_doc = to_doc_attrs(message.doc());
 		let body_type = message.body_type();
@@ -46,13 +47,13 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 			F: #fizyr_rpc::format::EncodeBody<#body_type>,
 		});
 
-		let is_fn_name = syn::Ident::new(&format!("is_{}", message.name()), Span::call_site());
+		let is_fn_name = syn::Ident::new(&format!("is_{}", message.name().unraw()), Span::call_site());
 		let is_fn_doc = format!("Check if the message is a [`Self::{}`].", variant_name);
 
-		let as_fn_name = syn::Ident::new(&format!("as_{}", message.name()), Span::call_site());
+		let as_fn_name = syn::Ident::new(&format!("as_{}", message.name().unraw()), Span::call_site());
 		let as_fn_doc = format!("Get the message as [`Self::{}`] by reference.", variant_name);
 
-		let into_fn_name = syn::Ident::new(&format!("into_{}", message.name()), Span::call_site());
+		let into_fn_name = syn::Ident::new(&format!("into_{}", message.name().unraw()), Span::call_site());
 		let into_fn_doc = format!("Get the message as [`Self::{}`] by value.", variant_name);
 
 		impl_tokens.extend(quote! {
diff --git a/macros/src/interface/generate/server.rs b/macros/src/interface/generate/server.rs
index bf8f59d..7787142 100644
--- a/macros/src/interface/generate/server.rs
+++ b/macros/src/interface/generate/server.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{TokenStream, Span};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::interface::parse::cooked::InterfaceDefinition;
 
@@ -27,7 +28,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 	for stream in interface.streams() {
 		let service_id = stream.service_id();
 		let stream_name = stream.name();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&stream_name.to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(&stream_name.unraw().to_string()), Span::call_site());
 		let body_type = stream.body_type();
 		recv_message_where.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#body_type>,
@@ -66,7 +67,7 @@ pub fn generate_server(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, in
 	for service in interface.services() {
 		let service_id = service.service_id();
 		let service_name = service.name();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&service_name.to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(&service_name.unraw().to_string()), Span::call_site());
 		let request_type = service.request_type();
 		recv_message_where.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#request_type>,
@@ -207,7 +208,7 @@ fn generate_received_request_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn
 	let mut debug_tokens = TokenStream::new();
 	for service in interface.services() {
 		let service_name = service.name();
-		let variant_name_string = to_upper_camel_case(&service_name.to_string());
+		let variant_name_string = to_upper_camel_case(&service_name.unraw().to_string());
 		let variant_name = syn::Ident::new(&variant_name_string, Span::call_site());
 		let request_type = service.request_type();
 		let doc = to_doc_attrs(service.doc());
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index c105baf..ee92238 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{TokenStream, Span};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::interface::parse::cooked::{InterfaceDefinition, ServiceDefinition, UpdateDefinition};
 
@@ -450,7 +451,7 @@ fn generate_send_update_functions(impl_tokens: &mut TokenStream, fizyr_rpc: &syn
 	};
 
 	for update in updates {
-		let function_name = syn::Ident::new(&format!("send_{}_update", update.name()), Span::call_site());
+		let function_name = syn::Ident::new(&format!("send_{}_update", update.name().unraw()), Span::call_site());
 		let body_type = update.body_type();
 		let service_id = update.service_id();
 		let doc = format!("Send a `{}` update to the remote peer.", update.name());
@@ -504,7 +505,7 @@ fn generate_recv_update_function(impl_tokens: &mut TokenStream, fizyr_rpc: &syn:
 	for update in updates {
 		let service_id = update.service_id();
 		let body_type = update.body_type();
-		let variant_name = syn::Ident::new(&to_upper_camel_case(&update.name().to_string()), Span::call_site());
+		let variant_name = syn::Ident::new(&to_upper_camel_case(&update.name().unraw().to_string()), Span::call_site());
 		where_clause.extend(quote! {
 			F: #fizyr_rpc::format::DecodeBody<#body_type>,
 		});
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index cb42a28..afd8b89 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{TokenStream, Span};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::interface::parse::cooked::InterfaceDefinition;
 
@@ -18,7 +19,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 	}
 	for stream in interface.streams() {
 		let service_id = stream.service_id();
-		let fn_name = syn::Ident::new(&format!("send_{}", stream.name()), Span::call_site());
+		let fn_name = syn::Ident::new(&format!("send_{}", stream.name().unraw()), Span::call_site());
 		let fn_doc = format!("Send a `{}` stream message to the remote peer.", stream.name());
 		let body_arg;
 		let body_val;
-- 
2.43.0


From 4f0eec699bee32e26d1e2ffc1019a2cd525619e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 14/19] fix: name the right variant in the debug output of
 RecvMessageError

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7a772c9..33c2e99 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -250,8 +250,8 @@ impl<Body> std::fmt::Debug for RecvMessageError<Body> {
 		match self {
 			Self::Other(e) => f.debug_tuple("Other").field(e).finish(),
 			Self::UnknownStream(message) => f.debug_tuple("UnknownStream").field(message).finish(),
-			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownStream").field(request).finish(),
-			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStread").field(header).field(error).finish(),
+			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownRequest").field(request).finish(),
+			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStream").field(header).field(error).finish(),
 			Self::InvalidRequest(request, error) => f.debug_tuple("InvalidRequest").field(request).field(error).finish(),
 		}
 	}
-- 
2.43.0


From 64a6d328073688d504a52566399622fe03debb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 15/19] fix: reject the service ID of error responses for
 services in an interface

---
 macros/src/interface/parse.rs | 7 +++++++
 src/macros.rs                 | 1 +
 2 files changed, 8 insertions(+)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 7444d7e..c9833d5 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -176,6 +176,13 @@ pub mod cooked {
 				}
 			}
 
+			// A response with this service ID is always treated as an error response.
+			for service in &services {
+				if service.service_id.value == -1 {
+					errors.push(syn::Error::new(service.service_id.span, "service ID -1 is reserved for error responses"));
+				}
+			}
+
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
 			let mut remove_services = BTreeSet::new();
diff --git a/src/macros.rs b/src/macros.rs
index 81fab38..d9f3d0a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -50,6 +50,7 @@ pub use fizyr_rpc_macros::interface as interface_impl;
 ///         //
 ///         // The $id is used as the service ID and must be an i32.
 ///         // The ID must be unique for all services in the interface.
+///         // The ID -1 is reserved for error responses.
 ///         //
 ///         // The $name is the name of the service.
 ///         // It is used to generate function and type names.
-- 
2.43.0


From ff1fbb5afb2fb3055892d4f6c4062592e7a79319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 16/19] fix: stop waiting for the result of a command when the
 peer is gone

A command that is sent from another thread while the command channel is being
closed can end up in the channel after it was emptied. It is then not dropped
until all handles are dropped, and the sender, which holds one, waits forever.
---
 src/peer.rs        | 21 ++++++++++++++++++++-
 src/peer_handle.rs |  6 +++---
 src/request.rs     | 10 ++++------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 7c2b298..3674a9b 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,7 +1,7 @@
 use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
-use crate::error::private::InnerError;
+use crate::error::private::{connection_aborted, InnerError};
 use crate::{
 	util,
 	Error,
@@ -467,6 +467,25 @@ pub struct SendRawMessage<Body> {
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
 
+/// Wait for the result of a command that was sent to the command loop.
+///
+/// A command that is sent while the peer stops can end up in the channel after the peer emptied it.
+/// Such a command is not dropped until all handles are dropped,
+/// so we also have to stop waiting when the receiving end of the command channel is gone.
+pub(crate) async fn command_result<Body, T>(
+	command_tx: &mpsc::UnboundedSender<Command<Body>>,
+	mut result_rx: oneshot::Receiver<Result<T, Error>>,
+) -> Result<T, Error> {
+	let closed = command_tx.closed();
+	tokio::pin!(closed);
+
+	match select(&mut result_rx, closed).await {
+		Either::Left((result, _closed)) => result.map_err(|_| connection_aborted())?,
+		// If the command was processed before the peer stopped, the result is already there.
+		Either::Right((result_rx, ())) => result_rx.try_recv().map_err(|_| connection_aborted())?,
+	}
+}
+
 /// Command to process an incoming message from the remote peer.
 pub struct ProcessReceivedMessage<Body> {
 	/// The message from the remote peer, or an error.
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index 984a768..cd20810 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -2,7 +2,7 @@ use tokio::sync::mpsc;
 use tokio::sync::oneshot;
 
 use crate::error::private::connection_aborted;
-use crate::peer::{Command, SendRawMessage, SendRequest};
+use crate::peer::{command_result, Command, SendRawMessage, SendRequest};
 use crate::{Error, Message, ReceivedMessage, SentRequestHandle};
 
 /// Handle to a peer.
@@ -162,7 +162,7 @@ impl<Body> PeerWriteHandle<Body> {
 			.send(SendRequest { service_id, body, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
-		result_rx.await.map_err(|_| connection_aborted())?
+		command_result(&self.command_tx, result_rx).await
 	}
 
 	/// Send a stream message to the remote peer.
@@ -174,7 +174,7 @@ impl<Body> PeerWriteHandle<Body> {
 			.send(SendRawMessage { message, closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
-		result_rx.await.map_err(|_| connection_aborted())?
+		command_result(&self.command_tx, result_rx).await
 	}
 
 	/// Close the connection with the remote peer.
diff --git a/src/request.rs b/src/request.rs
index d2f6532..585afa7 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -196,7 +196,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 
 	/// Send an update for the request to the remote peer.
 	pub async fn send_update(&self, service_id: i32, body: impl Into<Body>) -> Result<(), Error> {
-		use crate::peer::SendRawMessage;
+		use crate::peer::{command_result, SendRawMessage};
 
 		// If the response has already arrived, we're not allowed to send messages anymore.
 		// The request ID could have been re-used already.
@@ -210,8 +210,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		self.command_tx
 			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
-		result_rx.await.map_err(|_| connection_aborted())??;
-		Ok(())
+		command_result(&self.command_tx, result_rx).await
 	}
 }
 
@@ -318,7 +317,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 	/// Send a raw message.
 	async fn send_raw_message(&self, message: Message<Body>) -> Result<(), Error> {
-		use crate::peer::SendRawMessage;
+		use crate::peer::{command_result, SendRawMessage};
 
 		// If the response has already arrived, we're not allowed to send messages anymore.
 		// The request ID could have been re-used already.
@@ -330,8 +329,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 		self.command_tx
 			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
-		result_rx.await.map_err(|_| connection_aborted())??;
-		Ok(())
+		command_result(&self.command_tx, result_rx).await
 	}
 }
 
-- 
2.43.0


From 3e9d1a2d6d5a95553904a3bffb58090d73d7bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 17/19] fix: keep a request open when it gets an update nobody
 can receive

When the read handle of a request was dropped, the next update for it made the
tracker forget the request, although it was not answered yet. Its write handles
could still be used, so they could touch a newer request with the same ID, and
the ID of a request that the remote peer still has to answer could be given to
a new request, which then received the wrong response.
---
 src/request_tracker.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 1efc13b..7917482 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -86,8 +86,7 @@ impl<Body> RequestTracker<Body> {
 	/// Remove a sent request from the tracker.
 	///
 	/// This should be called when a request is finished to make the ID available again.
-	/// Note that sent requests are also removed internally when they receive a response,
-	/// or when they would receive a message but the [`SentRequestHandle`] was dropped.
+	/// Note that sent requests are also removed internally when they receive a response.
 	pub fn remove_sent_request(&mut self, request_id: u32) -> Result<(), Error> {
 		let tracked_request = self.sent_requests.remove(&request_id).ok_or(InnerError::UnknownRequestId { request_id })?;
 
@@ -141,7 +140,6 @@ impl<Body> RequestTracker<Body> {
 	/// Remove a received request from the tracker.
 	///
 	/// This should be called when a request is finished to make the ID available again.
-	/// Note that received requests are also removed internally when they would receive a message but the [`ReceivedRequestHandle`] was dropped.
 	pub fn remove_received_request(&mut self, request_id: u32) -> Result<(), Error> {
 		let tracked_request = self.received_requests.remove(&request_id).ok_or(InnerError::UnknownRequestId { request_id })?;
 
@@ -207,9 +205,9 @@ impl<Body> RequestTracker<Body> {
 		match self.received_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
 			Entry::Occupied(mut entry) => {
-				// If the received_request is dropped, clear the entry.
+				// If the received_request is dropped, nobody can receive the update.
+				// The request itself remains open until it is answered: its write handles can still be in use.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
@@ -223,9 +221,9 @@ impl<Body> RequestTracker<Body> {
 		match self.sent_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
 			Entry::Occupied(mut entry) => {
-				// If the sent_request is dropped, clear the entry.
+				// If the sent_request is dropped, nobody can receive the update.
+				// The request itself remains open until it is answered: the remote peer is still using the request ID.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From ecd2182277a4bb0b15e54386f69acba5135569aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 18/19] fix: refuse bodies that do not fit in a frame

With a limit of (nearly) u32::MAX, the length of a message including
its header could overflow: a corrupt frame was sent (or the peer panicked).
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 9a6f7d8..497ac9b 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -222,7 +222,9 @@ where
 		let this = self.get_mut();
 
 		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		// The length in the frame includes the message header, and that must also fit in a `u32`.
+		let max_body_len = this.max_body_len.min(u32::MAX - crate::HEADER_LEN);
+		check_payload_too_large(body.len(), max_body_len as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From d68d328228aa21958ca9598ee10e3d5c668be06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 19/19] fix: keep the connection when a datagram can not be
 sent

A datagram that is too large for the socket (EMSGSIZE) ended the whole
connection, although nothing was sent. Only treat errors as fatal that
mean that the connection is gone.
---
 src/transport/unix/transport.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 22f29c5..25b07ac 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -131,7 +131,7 @@ mod implementation {
 
 	use filedesc::FileDesc;
 	use tokio_seqpacket::ancillary::{OwnedAncillaryMessage, AncillaryMessageWriter};
-	use std::io::{IoSlice, IoSliceMut};
+	use std::io::{ErrorKind, IoSlice, IoSliceMut};
 	use std::pin::Pin;
 	use std::task::{Context, Poll};
 
@@ -242,7 +242,13 @@ mod implementation {
 
 			let buffers = [IoSlice::new(&header_buffer), IoSlice::new(&body.data)];
 			ready!(this.socket.poll_send_vectored_with_ancillary(context, &buffers, &mut ancillary))
-				.map_err(TransportError::new_fatal)?;
+				.map_err(|e| match e.kind() {
+					// The connection is gone.
+					ErrorKind::BrokenPipe | ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::NotConnected => TransportError::new_fatal(e),
+					// A datagram is sent as a whole or not at all.
+					// If it could not be sent (for example because it is too large for the socket), the connection can still be used.
+					_ => TransportError::new_non_fatal(e),
+				})?;
 
 			Poll::Ready(Ok(()))
 		}
-- 
2.43.0

