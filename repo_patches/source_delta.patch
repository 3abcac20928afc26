From 84b5bd9cfa094697ba70dde6a0a8c7d306be0ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 01/32] fix: drop watchers no longer take their own start-up
 permit

The watcher task and its creator both waited on the same Notify, so the
watcher could consume the permit meant for the creator (bind/accept/connect
hang) or close the connection at once. notify_one() stores a permit, so no
start-up handshake is needed.
---
 src/server.rs | 4 ----
 src/socket.rs | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..94eda76 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -605,8 +605,6 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -618,8 +616,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..a8f62a6 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -920,8 +920,6 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -933,8 +931,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From e7233438d775fecbb1444ae412008cfaeb1f2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 02/32] fix: a session whose application does not read no
 longer blocks its receiver

The user data queue was bounded and the receiver waited on it while holding
the receive queue lock: the tick (retransmission, timeout, disconnect), the
listener's dispatch loop and every other session stalled behind one slow
reader.
---
 src/socket.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index a8f62a6..33b993b 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -17,7 +17,7 @@ use crate::{
     raknet_log_error, raknet_log_info,
 };
 use std::sync::atomic::{AtomicBool, Ordering};
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{unbounded_channel, Receiver, Sender, UnboundedReceiver, UnboundedSender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
@@ -25,7 +25,7 @@ use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 pub struct RaknetSocket {
     local_addr: SocketAddr,
     peer_addr: SocketAddr,
-    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,
+    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,
     recvq: Arc<Mutex<RecvQ>>,
     sendq: Arc<RwLock<SendQ>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
@@ -50,7 +50,7 @@ impl RaknetSocket {
         collecter: Arc<Mutex<Sender<SocketAddr>>>,
         raknet_version: u8,
     ) -> Self {
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
         let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
 
         let ret = RaknetSocket {
@@ -80,7 +80,7 @@ impl RaknetSocket {
         peer_addr: &SocketAddr,
         local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
-        user_data_sender: &Sender<Vec<u8>>,
+        user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
         match PacketID::from(frame.data[0])? {
@@ -143,7 +143,7 @@ impl RaknetSocket {
                 return Ok(false);
             }
             _ => {
-                match user_data_sender.send(frame.data.clone()).await {
+                match user_data_sender.send(frame.data.clone()) {
                     Ok(_) => {}
                     Err(_) => {
                         return Ok(false);
@@ -336,7 +336,7 @@ impl RaknetSocket {
         sendq1.insert(Reliability::ReliableOrdered, &buf)?;
         std::mem::drop(sendq1);
 
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
         let (sender, receiver) = channel::<Vec<u8>>(100);
 
@@ -420,7 +420,7 @@ impl RaknetSocket {
         &self,
         s: &Arc<UdpSocket>,
         mut receiver: Receiver<Vec<u8>>,
-        user_data_sender: Sender<Vec<u8>>,
+        user_data_sender: UnboundedSender<Vec<u8>>,
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-- 
2.43.0


From dfbeb964a9a1651a9f01defca3b7e5afee9f72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 03/32] fix: a Disconnect for a session that just ended no
 longer kills the listen task

---
 src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 94eda76..a7e6587 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -450,7 +450,7 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From b0aa4985f2d1d7c0e41ca1231e807a6ee08faa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 04/32] fix: a full accept backlog no longer blocks the
 listener

The listen task waited for room in the accept queue while holding the session
table, so eleven unaccepted connections stopped every session of the listener.
---
 src/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index a7e6587..cca5537 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -416,6 +416,12 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // no room in the accept backlog : stay silent, the client will retry.
+                        let permit = match connection_sender.try_reserve() {
+                            Ok(p) => p,
+                            Err(_) => continue,
+                        };
+
                         match socket.send_to(&reply, addr).await {
                             Ok(_) => {}
                             Err(e) => {
@@ -445,7 +451,7 @@ impl RaknetListener {
 
                         raknet_log_debug!("accept connection : {}", addr);
                         sessions.insert(addr, (cur_timestamp_millis(), sender));
-                        let _ = connection_sender.send(s).await;
+                        permit.send(s);
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-- 
2.43.0


From 64d2459fde09062e997b883e0d47d93fd1b93ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 05/32] fix: answer a repeated open connection request 2 of the
 same client

When the reply was lost the server answered every retry with Already
Connected, and the client retried forever.
---
 src/server.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index cca5537..d37d117 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,7 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-type SessionSender = (i64, Sender<Vec<u8>>);
+type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -399,6 +399,18 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        if sessions.contains_key(&addr) && sessions[&addr].2 == req.guid {
+                            // our reply was lost, the client is asking again.
+                            match socket.send_to(&reply, addr).await {
+                                Ok(_) => {}
+                                Err(e) => {
+                                    raknet_log_error!("udp socket send_to error : {}", e);
+                                }
+                            };
+
+                            continue;
+                        }
+
                         if sessions.contains_key(&addr) {
                             let packet = write_packet_already_connected(&AlreadyConnected {
                                 magic: true,
@@ -450,7 +462,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
                         permit.send(s);
                     }
                     PacketID::Disconnect => {
-- 
2.43.0


From 8fe32bfe1083788b21b6b6c4381a4550a137be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 06/32] fix: connect() fails when the connection ends during
 the handshake

It waited forever when the server went away after open connection reply 2.
---
 src/socket.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 33b993b..f65ffc4 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -411,7 +411,10 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => Ok(()),
+            _ = ret.close_notifier.acquire() => Err(RaknetError::ConnectionClosed),
+        }?;
 
         Ok(ret)
     }
-- 
2.43.0


From aabb60e8f5f74219081f2bc1bca694fc10fc03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 07/32] fix: close() of a listener that never listened returns

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index d37d117..6bb1727 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -586,7 +586,9 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 7cb295c8489078582f94a59fa052ca7ffe471834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 08/32] fix: a connection request racing with close() no longer
 leaves a session behind

close() waited forever for the UDP socket held by that session.
---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 6bb1727..f2004ee 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -399,6 +399,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        // closed while waiting : all sessions are collected, do not add one.
+                        if close_notify.is_closed() {
+                            break;
+                        }
+
                         if sessions.contains_key(&addr) && sessions[&addr].2 == req.guid {
                             // our reply was lost, the client is asking again.
                             match socket.send_to(&reply, addr).await {
-- 
2.43.0


From 59190f93774c5f48adc7225a8618bbe3a9914ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 09/32] fix: local_addr() of a closed listener returns an error
 instead of panicking

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index f2004ee..e7c5f9e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -576,7 +576,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match &self.socket {
+            Some(p) => Ok(p.local_addr().unwrap()),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From 65cbaa23758221207e5cb21f5f81df596efc1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 10/32] fix: set_motd() and set_full_motd() take effect on a
 listening server

The listen task answered pings from a copy taken in listen(), although
set_motd() is documented to be called after it.
---
 src/server.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index e7c5f9e..340e69f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -17,7 +17,7 @@ type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::RwLock<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -50,7 +50,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +88,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +208,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +224,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +242,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -284,7 +283,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -310,7 +309,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -545,7 +544,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        let motd = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -555,6 +554,7 @@ impl RaknetListener {
             game_type,
             port
         );
+        *self.motd.write().unwrap() = motd;
     }
 
     /// Get the current motd, this motd will be provided to the client in the unconnected pong.
@@ -565,7 +565,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.read().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -618,7 +618,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.write().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From bdb635e3badf9f119374b148237f76314da86d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 11/32] fix: ping() measures latency on the caller's clock and
 only accepts a pong

It subtracted the caller's clock from the server's, and took any datagram for
a pong.
---
 src/socket.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index f65ffc4..1114e3e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -766,7 +766,7 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 1024];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -781,9 +781,11 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
-            };
+            if size > 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
+                if let Ok(p) = read_packet_pong(&buf[..size]) {
+                    return Ok((cur_timestamp_millis() - packet.time, p.motd));
+                };
+            }
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
         }
-- 
2.43.0


From e68d50f9734f12d5845209de035e0fecedbc6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 12/32] fix: unconnected pong echoes the time of the ping

RakNet clients compute the latency from it.
---
 src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 340e69f..62a848b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -274,13 +274,13 @@ impl RaknetListener {
 
                 match cur_status {
                     PacketID::UnconnectedPing1 => {
-                        let _ping = match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd: motd.read().unwrap().clone(),
@@ -300,13 +300,13 @@ impl RaknetListener {
                         continue;
                     }
                     PacketID::UnconnectedPing2 => {
-                        match read_packet_ping(&buf[..size]) {
+                        let ping = match read_packet_ping(&buf[..size]) {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
 
                         let packet = crate::packet::PacketUnconnectedPong {
-                            time: cur_timestamp_millis(),
+                            time: ping.time,
                             guid,
                             magic: true,
                             motd: motd.read().unwrap().clone(),
-- 
2.43.0


From 6075f38d9acb2dd5b5f117c30f77ae499c055f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 13/32] fix: malformed datagrams are ignored instead of
 panicking

Truncated, empty or unknown datagrams and frames panicked the receiver task
(unwrap of parse errors), which silently killed the connection.
---
 src/arq.rs      | 24 ++++++++++++------------
 src/datatype.rs |  6 +++++-
 src/fragment.rs |  4 ++++
 src/server.rs   |  4 ++++
 src/socket.rs   | 38 ++++++++++++++++++++++++++++----------
 5 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..18ecd90 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..9d984e2 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
@@ -277,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::PacketParseError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..770d027 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -68,6 +68,10 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
diff --git a/src/server.rs b/src/server.rs
index 62a848b..e433345 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -264,6 +264,10 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
diff --git a/src/socket.rs b/src/socket.rs
index 1114e3e..d257b06 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -83,6 +83,10 @@ impl RaknetSocket {
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Ok(true);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -248,7 +252,7 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(&reply1_buf[..size]) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
@@ -440,7 +444,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        let _ = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -448,8 +452,7 @@ impl RaknetSocket {
                             &user_data_sender,
                             &incomming_notify,
                         )
-                        .await
-                        .unwrap();
+                        .await;
                     }
                     break;
                 }
@@ -465,7 +468,11 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf.is_empty() {
+                    continue;
+                }
+
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
@@ -473,7 +480,10 @@ impl RaknetSocket {
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -488,7 +498,10 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -509,12 +522,17 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if recvq.insert(frame).is_err() {
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
                             if !RaknetSocket::handle(
@@ -526,7 +544,7 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
+                            .unwrap_or(true)
                             {
                                 raknet_log_info!("handle over");
                                 connected.close();
-- 
2.43.0


From d250f21f693169274bb22bd75cfa920e9a30d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 14/32] fix: do not take any MTU value from the peer

An MTU below 60 underflowed, 60 divided by zero, and one above 8191 overflowed
the frame length when sending.
---
 src/server.rs | 9 +++++++--
 src/socket.rs | 9 +++++++--
 src/utils.rs  | 1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index e433345..d1bf971 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -387,11 +387,16 @@ impl RaknetListener {
                             Err(_) => continue,
                         };
 
+                        if req.mtu < RAKNET_MIN_MTU {
+                            continue;
+                        }
+                        let mtu = req.mtu.min(RAKNET_CLIENT_MTU);
+
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu: req.mtu,
+                            mtu,
                             encryption_enabled: 0x00,
                         };
 
@@ -463,7 +468,7 @@ impl RaknetListener {
                             &addr,
                             &socket,
                             receiver,
-                            req.mtu,
+                            mtu,
                             collect_sender.clone(),
                             raknet_version,
                         )
diff --git a/src/socket.rs b/src/socket.rs
index d257b06..cfc970d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -272,10 +272,15 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
+        if reply1.mtu_size < RAKNET_MIN_MTU {
+            return Err(RaknetError::IncorrectReply);
+        }
+        let mtu = reply1.mtu_size.min(RAKNET_CLIENT_MTU);
+
         let packet = OpenConnectionRequest2 {
             magic: true,
             address: remote_addr,
-            mtu: reply1.mtu_size,
+            mtu,
             guid,
         };
 
@@ -326,7 +331,7 @@ impl RaknetSocket {
             break;
         }
 
-        let sendq = Arc::new(RwLock::new(SendQ::new(reply1.mtu_size)));
+        let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
         let packet = ConnectionRequest {
             guid,
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..ae14a3d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,6 +2,7 @@ pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
+pub const RAKNET_MIN_MTU: u16 = 400;
 
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
-- 
2.43.0


From acb85c5190b8b48210ffd5b5893645a3f65f0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 15/32] fix: ignore acknowledgements of packets that were never
 sent

One datagram acknowledging a huge range kept the session busy for minutes,
and an acknowledgement from the future disturbed loss detection.
---
 src/arq.rs    | 9 +++++++++
 src/socket.rs | 9 ++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 18ecd90..199d295 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -731,6 +731,11 @@ impl SendQ {
         self.rto
     }
 
+    /// Sequence number of the next packet, no packet has been sent with it yet.
+    pub fn next_sequence_number(&self) -> u32 {
+        self.sequence_number
+    }
+
     pub fn nack(&mut self, sequence: u32, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
@@ -752,6 +757,10 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
+        if sequence >= self.sequence_number {
+            return;
+        }
+
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
             for i in self.ack_sequence_number + 1..sequence {
                 self.nack(i, tick);
diff --git a/src/socket.rs b/src/socket.rs
index cfc970d..8a76f8b 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -493,7 +493,9 @@ impl RaknetSocket {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
+                            let end = ack.sequences[i as usize].1 + 1;
+                            let end = end.min(sendq.next_sequence_number());
+                            for i in ack.sequences[i as usize].0..end {
                                 sendq.ack(i, cur_timestamp_millis());
                             }
                         }
@@ -514,8 +516,9 @@ impl RaknetSocket {
                         if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
                             sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
-                            {
+                            let end = nack.sequences[i as usize].1 + 1;
+                            let end = end.min(sendq.next_sequence_number());
+                            for i in nack.sequences[i as usize].0..end {
                                 sendq.nack(i, cur_timestamp_millis());
                             }
                         }
-- 
2.43.0


From 151a44d461581dc9d8822b68e45794779f468e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 16/32] fix: a client only accepts datagrams from its server

Anyone could inject frames, acknowledgements or a disconnect into a client's
connection by sending to its port.
---
 src/socket.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 8a76f8b..6e0a95c 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -247,6 +247,12 @@ impl RaknetSocket {
                 }
             };
 
+            // only the server we are connecting to may answer.
+            if src.port() != addr.port() || (src.ip() != addr.ip() && !addr.ip().is_unspecified()) {
+                raknet_log_debug!("reply1 from unexpected address {}", src);
+                continue;
+            }
+
             remote_addr = src;
             reply1_size = size;
 
@@ -297,7 +303,7 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
+            let (size, src) =
                 match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
@@ -313,6 +319,11 @@ impl RaknetSocket {
                     }
                 };
 
+            if src != remote_addr {
+                raknet_log_debug!("reply2 from unexpected address {}", src);
+                continue;
+            }
+
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
                 continue;
@@ -361,7 +372,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -384,6 +395,10 @@ impl RaknetSocket {
                     }
                 };
 
+                if src != remote_addr {
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
-- 
2.43.0


From 65b5167e42b25388d098d32bc6e168d6a7dd2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 17/32] fix: timers do not follow steps of the system clock

Retransmission and the receive timeout were computed from the wall clock: a
step forward closed every connection, a step back stopped retransmission.
---
 src/utils.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index ae14a3d..d897682 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,6 @@
+use std::sync::OnceLock;
+use std::time::{Duration, Instant};
+
 pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
@@ -11,10 +14,17 @@ pub enum Endian {
     Little,
 }
 
+/// Unix time when first used, advanced by the monotonic clock : retransmission and timeouts
+/// depend on it and must not follow steps of the system clock.
 pub fn cur_timestamp_millis() -> i64 {
-    std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap()
+    static BASE: OnceLock<(Duration, Instant)> = OnceLock::new();
+    let (unix, start) = BASE.get_or_init(|| {
+        let unix = std::time::SystemTime::now()
+            .duration_since(std::time::UNIX_EPOCH)
+            .unwrap_or_default();
+        (unix, Instant::now())
+    });
+    (*unix + start.elapsed())
         .as_millis()
         .try_into()
         .unwrap_or(0)
-- 
2.43.0


From 30d9d07f928b82f5353c3061989a18693b1ccd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 18/32] fix: the retransmission timeout has an upper bound
 again

RTO_UBOUND bounded the smoothed value only; the back-off per resend grew past
it without limit, so after an outage a packet could wait for hours.
---
 src/arq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arq.rs b/src/arq.rs
index 199d295..e8da5dd 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -795,6 +795,10 @@ impl SendQ {
             // while rust-raknet it is not x2, but x1.5 (Experimental results show that the value of 1.5 is relatively good), which has improved the transmission speed.
             for _ in 0..p.3 {
                 cur_rto = (cur_rto as f64 * 1.5) as i64;
+                if cur_rto >= SendQ::RTO_UBOUND {
+                    cur_rto = SendQ::RTO_UBOUND;
+                    break;
+                }
             }
 
             if p.1 && tick - p.2 >= cur_rto {
-- 
2.43.0


From 45da6ce681da35fc6903a0ad9068a53ad4064e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 19/32] fix: a packet reported missing is sent again instead of
 postponed

nack() restarted the timer and raised the back-off of the packet but never
sent it.
---
 src/arq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index e8da5dd..610c4f1 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -749,8 +749,9 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
+                // send it again with the next flush.
+                item.1 = false;
                 item.2 = tick;
-                item.3 += 1;
                 item.4.push(item.0.sequence_number);
             }
         }
-- 
2.43.0


From 93271c5979d2efa42713ef21ed026da6edd0a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 20/32] fix: send() on a connection that is just closing
 returns an error instead of panicking

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 6e0a95c..9aaf58e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -870,7 +870,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From b4ccf842dde0217bd02b5c2dee2533fa0cb07668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 21/32] fix: a retransmitted reliable packet is delivered once

A datagram whose acknowledgement was lost or late is sent again under a new
sequence number. Reliable packets were recognised by sequence number only and
delivered again; a late fragment of a complete compound stayed in the fragment
queue. Recognise them by the reliable frame index.
---
 src/arq.rs    | 36 +++++++++++++++++++++++++++++++++++-
 src/socket.rs |  5 +++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 610c4f1..d162079 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, net::SocketAddr};
+use std::{
+    collections::{HashMap, HashSet},
+    net::SocketAddr,
+};
 
 use crate::{datatype::*, error::*, fragment::FragmentQ, raknet_log_debug, utils::*};
 
@@ -436,6 +439,8 @@ impl ACKSet {
 pub struct RecvQ {
     sequenced_frame_index: u32,
     last_ordered_index: u32,
+    reliable_frame_index: u32,
+    reliable_frames: HashSet<u32>,
     sequence_number_ackset: ACKSet,
     packets: HashMap<u32, FrameSetPacket>,
     ordered_packets: HashMap<u32, FrameSetPacket>,
@@ -451,7 +456,36 @@ impl RecvQ {
             ordered_packets: HashMap::new(),
             sequenced_frame_index: 0,
             last_ordered_index: 0,
+            reliable_frame_index: 0,
+            reliable_frames: HashSet::new(),
+        }
+    }
+
+    /// Record a reliable frame, returns true if it has been received before. A frame is sent again
+    /// under a new sequence number, only its reliable frame index tells.
+    pub fn is_duplicate(&mut self, frame: &FrameSetPacket) -> Result<bool> {
+        if !frame.is_reliable()? {
+            return Ok(false);
         }
+
+        // all indexes before self.reliable_frame_index have been received, they are 24 bit and wrap around.
+        let offset = frame
+            .reliable_frame_index
+            .wrapping_sub(self.reliable_frame_index)
+            & 0xffffff;
+        if offset >= 0x800000 || !self.reliable_frames.insert(frame.reliable_frame_index) {
+            return Ok(true);
+        }
+
+        while self.reliable_frames.remove(&self.reliable_frame_index) {
+            self.reliable_frame_index = (self.reliable_frame_index + 1) & 0xffffff;
+        }
+        Ok(false)
+    }
+
+    /// Acknowledge a packet without taking it.
+    pub fn insert_ack(&mut self, sequence_number: u32) {
+        self.sequence_number_ackset.insert(sequence_number);
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
diff --git a/src/socket.rs b/src/socket.rs
index 9aaf58e..6fc589a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -553,6 +553,11 @@ impl RaknetSocket {
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
+                        if recvq.is_duplicate(&frame).unwrap_or(false) {
+                            recvq.insert_ack(frame.sequence_number);
+                            continue;
+                        }
+
                         if recvq.insert(frame).is_err() {
                             continue;
                         }
-- 
2.43.0


From 7ce772fecb200e30f136e3da1407f63ffe4909ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 22/32] fix: the compound id wraps around after 65536
 fragmented packets

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index d162079..68fdf0b 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -718,7 +718,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 4113ce7695dfdeaf0ea29e14de7c84618d1cd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 23/32] fix: a failed recv_from no longer ends the listen task

An error caused by one datagram (an ICMP error, a datagram larger than the
buffer on Windows) stopped the whole server silently.
---
 src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index d1bf971..d72feb3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -254,7 +254,7 @@ impl RaknetListener {
                             },
                             Err(e) => {
                                 raknet_log_debug!("server recv_from error {}" , e);
-                                break;
+                                continue;
                             },
                         };
                     },
-- 
2.43.0


From b7dddec328a77646fca4ad99baed02e9c3868116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 24/32] fix: connections over IPv6

connect() and ping() always bound an IPv4 socket, and IPv6 addresses were
written without their version byte and read with a wrong length check.
---
 src/datatype.rs |  3 ++-
 src/socket.rs   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 9d984e2..a06003b 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,7 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
diff --git a/src/socket.rs b/src/socket.rs
index 6fc589a..6f9faf7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -182,6 +182,15 @@ impl RaknetSocket {
         }
     }
 
+    // local address to bind for talking to `addr`
+    fn any_addr(addr: &SocketAddr) -> &'static str {
+        if addr.is_ipv4() {
+            "0.0.0.0:0"
+        } else {
+            "[::]:0"
+        }
+    }
+
     /// Connect to a Raknet server and return a Raknet socket
     ///
     /// # Example
@@ -201,7 +210,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(Self::any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -788,7 +797,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(Self::any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0


From e5cef6ef7ddec4e02550d83329e3bb340e15575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 25/32] fix: a long list of missing packets is split over
 several datagrams

After heavy loss the NACK exceeded the MTU, and the 2048 byte buffer of the
receiver, which then could not parse it.
---
 src/socket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 6f9faf7..772eab3 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -681,10 +681,11 @@ impl RaknetSocket {
                 // flush nack
                 let mut recvq = recvq.lock().await;
                 let nacks = recvq.get_nack();
-                if !nacks.is_empty() {
+                // a record is up to 7 bytes, 50 of them fit the smallest MTU.
+                for nacks in nacks.chunks(50) {
                     let nack = Nack {
                         record_count: nacks.len() as u16,
-                        sequences: nacks,
+                        sequences: nacks.to_vec(),
                     };
 
                     let buf = write_packet_nack(&nack).unwrap();
-- 
2.43.0


From 189c596550714767e083d48e0312234e7fc0a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:11 +0000
Subject: [PATCH 26/32] fix: connect() repeats a request every 2 seconds, not
 for every other datagram it receives

---
 src/socket.rs | 54 +++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 772eab3..704a1bb 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -9,7 +9,7 @@ use std::{
 use tokio::{
     net::UdpSocket,
     sync::{mpsc::channel, Mutex, Notify, RwLock},
-    time::{sleep, timeout},
+    time::{sleep, timeout, timeout_at, Instant},
 };
 
 use crate::{
@@ -228,20 +228,23 @@ impl RaknetSocket {
 
         let mut reply1_buf = [0u8; 2048];
 
+        // send the request every 2 seconds, not for every datagram that is not the reply.
+        let mut next_request = Instant::now();
+
         loop {
-            match s.send_to(&buf, addr).await {
-                Ok(p) => p,
-                Err(e) => {
-                    raknet_log_error!("udp socket sendto error {}", e);
-                    tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-                    continue;
-                }
-            };
-            let (size, src) = match match timeout(
-                std::time::Duration::from_secs(2),
-                s.recv_from(&mut reply1_buf),
-            )
-            .await
+            if Instant::now() >= next_request {
+                next_request = Instant::now() + std::time::Duration::from_secs(2);
+                match s.send_to(&buf, addr).await {
+                    Ok(p) => p,
+                    Err(e) => {
+                        raknet_log_error!("udp socket sendto error {}", e);
+                        tokio::time::sleep(std::time::Duration::from_secs(2)).await;
+                        continue;
+                    }
+                };
+            }
+            let (size, src) = match match timeout_at(next_request, s.recv_from(&mut reply1_buf))
+                .await
             {
                 Ok(p) => p,
                 Err(_) => {
@@ -301,19 +304,24 @@ impl RaknetSocket {
 
         let buf = write_packet_connection_open_request_2(&packet).unwrap();
 
+        let mut next_request = Instant::now();
+
         loop {
-            match s.send_to(&buf, addr).await {
-                Ok(_) => {}
-                Err(e) => {
-                    raknet_log_error!("udp socket sendto error {}", e);
-                    tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-                    continue;
-                }
-            };
+            if Instant::now() >= next_request {
+                next_request = Instant::now() + std::time::Duration::from_secs(2);
+                match s.send_to(&buf, addr).await {
+                    Ok(_) => {}
+                    Err(e) => {
+                        raknet_log_error!("udp socket sendto error {}", e);
+                        tokio::time::sleep(std::time::Duration::from_secs(2)).await;
+                        continue;
+                    }
+                };
+            }
 
             let mut buf = [0u8; 2048];
             let (size, src) =
-                match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
+                match match timeout_at(next_request, s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
                     Err(_) => {
-- 
2.43.0


From 5f73de81ad1f1295c97f4cd17fb31bbd4a264528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 27/32] fix: ping() measures the latency of a late pong from
 the ping it answers

---
 src/socket.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 704a1bb..bea5aa4 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -811,12 +811,15 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::BindAdressError),
         };
 
+        let mut sent = vec![];
+
         loop {
             let packet = PacketUnconnectedPing {
                 time: cur_timestamp_millis(),
                 magic: true,
                 guid: rand::random(),
             };
+            sent.push(packet.time);
 
             let buf = write_packet_ping(&packet)?;
 
@@ -847,7 +850,13 @@ impl RaknetSocket {
 
             if size > 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
                 if let Ok(p) = read_packet_pong(&buf[..size]) {
-                    return Ok((cur_timestamp_millis() - packet.time, p.motd));
+                    // a late pong answers an earlier ping, whose time it carries.
+                    let time = if sent.contains(&p.time) {
+                        p.time
+                    } else {
+                        packet.time
+                    };
+                    return Ok((cur_timestamp_millis() - time, p.motd));
                 };
             }
 
-- 
2.43.0


From c45d44d50066f8cd7eed9d5c815cf026824fbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:02 +0000
Subject: [PATCH 28/32] fix: 24-bit sequence numbers and frame indexes wrap
 around

After 2^24 packets or frames of one connection the numbers on the wire started
again at 0 while both ends compared them with 32-bit counters: nothing was
acknowledged or delivered any more.
---
 src/arq.rs    | 36 ++++++++++++++++++++++++++++++------
 src/socket.rs | 10 ++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 68fdf0b..06b3741 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -384,6 +384,18 @@ impl FrameVec {
     }
 }
 
+/// Sequence numbers and frame indexes are 24 bit on the wire and wrap around. Returns the
+/// number closest to `near` that looks like `n` there.
+fn unwrap_u24(n: u32, near: u32) -> u32 {
+    let ahead = n.wrapping_sub(near) & 0xffffff;
+    if ahead < 0x800000 {
+        near.wrapping_add(ahead)
+    } else {
+        // behind, or there has been no such number yet.
+        near.checked_sub(0x1000000 - ahead).unwrap_or(n)
+    }
+}
+
 pub struct ACKSet {
     ack: Vec<(u32, u32)>,
     nack: Vec<(u32, u32)>,
@@ -399,6 +411,8 @@ impl ACKSet {
         }
     }
     pub fn insert(&mut self, s: u32) {
+        let s = unwrap_u24(s, self.last_max);
+
         if s != 0 {
             if s > self.last_max && s != self.last_max + 1 {
                 self.nack.push((self.last_max + 1, s - 1));
@@ -488,7 +502,7 @@ impl RecvQ {
         self.sequence_number_ackset.insert(sequence_number);
     }
 
-    pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
+    pub fn insert(&mut self, mut frame: FrameSetPacket) -> Result<()> {
         if self.packets.contains_key(&frame.sequence_number) {
             return Ok(());
         }
@@ -505,7 +519,8 @@ impl RecvQ {
             // With the UNRELIABLE_SEQUENCED transmission method, the game data does not need to arrive in every packet to avoid packet loss and retransmission,
             // because the new packet represents the new state, and the new state can be used directly, without waiting for the old packet to arrive.
             Reliability::UnreliableSequenced => {
-                let sequenced_frame_index = frame.sequenced_frame_index;
+                let sequenced_frame_index =
+                    unwrap_u24(frame.sequenced_frame_index, self.sequenced_frame_index);
                 if sequenced_frame_index >= self.sequenced_frame_index {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
@@ -522,6 +537,8 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
+                frame.ordered_frame_index =
+                    unwrap_u24(frame.ordered_frame_index, self.last_ordered_index);
                 if frame.ordered_frame_index < self.last_ordered_index {
                     return Ok(());
                 }
@@ -542,7 +559,8 @@ impl RecvQ {
             }
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
-                let sequenced_frame_index = frame.sequenced_frame_index;
+                let sequenced_frame_index =
+                    unwrap_u24(frame.sequenced_frame_index, self.sequenced_frame_index);
                 if sequenced_frame_index >= self.sequenced_frame_index {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
@@ -765,12 +783,16 @@ impl SendQ {
         self.rto
     }
 
-    /// Sequence number of the next packet, no packet has been sent with it yet.
-    pub fn next_sequence_number(&self) -> u32 {
-        self.sequence_number
+    /// Sequence numbers of the packets that have been sent among those from `first` to `last`.
+    pub fn sent_between(&self, first: u32, last: u32) -> std::ops::Range<u32> {
+        let first = unwrap_u24(first, self.sequence_number);
+        let last = unwrap_u24(last, self.sequence_number);
+        first..self.sequence_number.min(last + 1)
     }
 
     pub fn nack(&mut self, sequence: u32, tick: i64) {
+        let sequence = unwrap_u24(sequence, self.sequence_number);
+
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
             if item.1 && item.0.sequence_number == sequence {
@@ -792,6 +814,8 @@ impl SendQ {
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
+        let sequence = unwrap_u24(sequence, self.sequence_number);
+
         if sequence >= self.sequence_number {
             return;
         }
diff --git a/src/socket.rs b/src/socket.rs
index bea5aa4..7dede71 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -525,9 +525,8 @@ impl RaknetSocket {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            let end = ack.sequences[i as usize].1 + 1;
-                            let end = end.min(sendq.next_sequence_number());
-                            for i in ack.sequences[i as usize].0..end {
+                            let (first, last) = ack.sequences[i as usize];
+                            for i in sendq.sent_between(first, last) {
                                 sendq.ack(i, cur_timestamp_millis());
                             }
                         }
@@ -548,9 +547,8 @@ impl RaknetSocket {
                         if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
                             sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            let end = nack.sequences[i as usize].1 + 1;
-                            let end = end.min(sendq.next_sequence_number());
-                            for i in nack.sequences[i as usize].0..end {
+                            let (first, last) = nack.sequences[i as usize];
+                            for i in sendq.sent_between(first, last) {
                                 sendq.nack(i, cur_timestamp_millis());
                             }
                         }
-- 
2.43.0


From c400d4183ad63d14782dc5a16f1f6561d0b5423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 29/32] hook: simulations can start a connection's counters at
 any number (cfg rksim, off by default)

---
 src/arq.rs | 32 ++++++++++++++++++++++----------
 src/lib.rs |  5 +++++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 06b3741..5e01b03 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -384,6 +384,18 @@ impl FrameVec {
     }
 }
 
+/// Number of the first packet and frame of every connection, simulations of long histories do not
+/// start with 0.
+#[cfg(rksim)]
+pub static FIRST_NUMBER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
+
+fn first_number() -> u32 {
+    #[cfg(rksim)]
+    return FIRST_NUMBER.load(std::sync::atomic::Ordering::Relaxed);
+    #[cfg(not(rksim))]
+    return 0;
+}
+
 /// Sequence numbers and frame indexes are 24 bit on the wire and wrap around. Returns the
 /// number closest to `near` that looks like `n` there.
 fn unwrap_u24(n: u32, near: u32) -> u32 {
@@ -407,7 +419,7 @@ impl ACKSet {
         ACKSet {
             ack: vec![],
             nack: vec![],
-            last_max: 0,
+            last_max: first_number().saturating_sub(1),
         }
     }
     pub fn insert(&mut self, s: u32) {
@@ -468,9 +480,9 @@ impl RecvQ {
             packets: HashMap::new(),
             fragment_queue: FragmentQ::new(),
             ordered_packets: HashMap::new(),
-            sequenced_frame_index: 0,
-            last_ordered_index: 0,
-            reliable_frame_index: 0,
+            sequenced_frame_index: first_number(),
+            last_ordered_index: first_number(),
+            reliable_frame_index: first_number() & 0xffffff,
             reliable_frames: HashSet::new(),
         }
     }
@@ -650,14 +662,14 @@ impl SendQ {
     pub fn new(mtu: u16) -> Self {
         Self {
             mtu,
-            ack_sequence_number: 0,
-            sequence_number: 0,
+            ack_sequence_number: first_number().saturating_sub(1),
+            sequence_number: first_number(),
             packets: vec![],
             sent_packet: vec![],
-            reliable_frame_index: 0,
-            sequenced_frame_index: 0,
-            ordered_frame_index: 0,
-            compound_id: 0,
+            reliable_frame_index: first_number(),
+            sequenced_frame_index: first_number(),
+            ordered_frame_index: first_number(),
+            compound_id: first_number() as u16,
 
             rto: SendQ::DEFAULT_TIMEOUT_MILLS,
             srtt: SendQ::DEFAULT_TIMEOUT_MILLS,
diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..cbe3e2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -38,6 +38,9 @@
 //! - [x] reliable ordered
 //! - [x] reliable sequenced
 
+// The cfg `rksim` marks what only simulations use.
+#![allow(unexpected_cfgs)]
+
 mod arq;
 mod datatype;
 pub mod error;
@@ -49,6 +52,8 @@ mod socket;
 mod utils;
 
 pub use crate::arq::Reliability;
+#[cfg(rksim)]
+pub use crate::arq::FIRST_NUMBER;
 pub use crate::log::enable_raknet_log;
 pub use crate::server::*;
 pub use crate::socket::*;
-- 
2.43.0


From a03bfe32f1d4a131af19777f505c123a526710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 30/32] fix: log output that fails does not panic the task that
 logs

---
 src/log.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index f22963c..264fd94 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -19,7 +19,8 @@ macro_rules! raknet_log_debug {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 1 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("debug - {} - {} - {}" , now , "raknet" , msg);
+            // output that fails (full disk, closed pipe) must not panic the task that logs.
+            let _ = std::io::Write::write_fmt(&mut std::io::stdout(), format_args!("debug - {} - {} - {}\n" , now , "raknet" , msg));
         }
     })
 }
@@ -31,7 +32,8 @@ macro_rules! raknet_log_error {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 2 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("error - {} - {} - {}" , now , "raknet" , msg);
+            // output that fails (full disk, closed pipe) must not panic the task that logs.
+            let _ = std::io::Write::write_fmt(&mut std::io::stdout(), format_args!("error - {} - {} - {}\n" , now , "raknet" , msg));
         }
     })
 }
@@ -43,7 +45,8 @@ macro_rules! raknet_log_info {
         if $crate::log::ENABLE_RAKNET_LOG.load(std::sync::atomic::Ordering::Relaxed) & 4 != 0 {
             let now = $crate::utils::cur_timestamp_millis();
             let msg = format!($($arg)*);
-            println!("info - {} - {} - {}" , now , "raknet" , msg);
+            // output that fails (full disk, closed pipe) must not panic the task that logs.
+            let _ = std::io::Write::write_fmt(&mut std::io::stdout(), format_args!("info - {} - {} - {}\n" , now , "raknet" , msg));
         }
     })
 }
-- 
2.43.0


From 0af21ce8a022760f903ba6e6d063a36823aaa7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:54 +0000
Subject: [PATCH 31/32] fix: a range of acknowledgements far larger than what
 is in flight takes no time

The peer chooses the numbers of an ACK or NACK record. Each number of a range, and each
number an ACK skips, was looked up by itself, so one datagram of a peer cost up to eight
million lookups per record on a connection that had sent that many packets, and the task
that serves the connection stood still for minutes. Only packets in flight are looked at
now.
---
 src/arq.rs    | 36 +++++++++++++++++++++++++++++-------
 src/socket.rs |  4 +---
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 5e01b03..feb4f2e 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -795,11 +795,21 @@ impl SendQ {
         self.rto
     }
 
-    /// Sequence numbers of the packets that have been sent among those from `first` to `last`.
-    pub fn sent_between(&self, first: u32, last: u32) -> std::ops::Range<u32> {
+    /// Sequence numbers from `first` to `last`, leaving out those that are of no packet waiting for
+    /// an acknowledgement. The peer chooses the range, it may be far larger than what was sent.
+    pub fn sent_between(&self, first: u32, last: u32) -> Vec<u32> {
         let first = unwrap_u24(first, self.sequence_number);
-        let last = unwrap_u24(last, self.sequence_number);
-        first..self.sequence_number.min(last + 1)
+        let last = unwrap_u24(last, self.sequence_number).min(self.sequence_number.saturating_sub(1));
+        let mut ret: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .flat_map(|p| p.4.iter().copied())
+            .chain([first, last])
+            .filter(|s| (first..=last).contains(s))
+            .collect();
+        ret.sort_unstable();
+        ret.dedup();
+        ret
     }
 
     pub fn nack(&mut self, sequence: u32, tick: i64) {
@@ -825,6 +835,20 @@ impl SendQ {
         }
     }
 
+    pub fn nack_between(&mut self, first: u32, last: u32, tick: i64) {
+        let first = unwrap_u24(first, self.sequence_number);
+        let last = unwrap_u24(last, self.sequence_number);
+        let lost: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .filter(|p| p.1 && (first..=last).contains(&p.0.sequence_number))
+            .map(|p| p.0.sequence_number)
+            .collect();
+        for i in lost {
+            self.nack(i, tick);
+        }
+    }
+
     pub fn ack(&mut self, sequence: u32, tick: i64) {
         let sequence = unwrap_u24(sequence, self.sequence_number);
 
@@ -833,9 +857,7 @@ impl SendQ {
         }
 
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
-            for i in self.ack_sequence_number + 1..sequence {
-                self.nack(i, tick);
-            }
+            self.nack_between(self.ack_sequence_number + 1, sequence - 1, tick);
         }
 
         self.ack_sequence_number = sequence;
diff --git a/src/socket.rs b/src/socket.rs
index 7dede71..fe64576 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -548,9 +548,7 @@ impl RaknetSocket {
                             sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
                             let (first, last) = nack.sequences[i as usize];
-                            for i in sendq.sent_between(first, last) {
-                                sendq.nack(i, cur_timestamp_millis());
-                            }
+                            sendq.nack_between(first, last, cur_timestamp_millis());
                         }
                     }
                     continue;
-- 
2.43.0


From c92da19efd29a281836fba14db2b63d9b073f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:27 +0000
Subject: [PATCH 32/32] fix: a peer that jumps ahead in its numbers does not
 overflow the receiver's counters

The receiver takes a number up to eight million ahead of the last one. A few hundred such
jumps of the packet number or the sequenced index ran its 32 bit counter over, the task
that serves the connection panicked where overflow is checked.
---
 src/arq.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index feb4f2e..0ae0611 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -408,6 +408,16 @@ fn unwrap_u24(n: u32, near: u32) -> u32 {
     }
 }
 
+/// Any number with the same 24 bits stands for the same thing on the wire. Keeps one that the
+/// peer can push ahead by half of them with every packet from overflowing.
+fn keep_low(n: u32) -> u32 {
+    if n >= 0x2000000 {
+        n - 0x1000000
+    } else {
+        n
+    }
+}
+
 pub struct ACKSet {
     ack: Vec<(u32, u32)>,
     nack: Vec<(u32, u32)>,
@@ -431,7 +441,7 @@ impl ACKSet {
             }
 
             if s > self.last_max {
-                self.last_max = s;
+                self.last_max = keep_low(s);
             }
         }
 
@@ -538,7 +548,7 @@ impl RecvQ {
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = keep_low(sequenced_frame_index + 1);
                     }
                 }
             }
@@ -578,7 +588,7 @@ impl RecvQ {
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = keep_low(sequenced_frame_index + 1);
                     }
                 }
             }
-- 
2.43.0

