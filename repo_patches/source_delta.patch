From 6464f4bd6ae66ad0974315bf1bdddecdf36c5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 01/16] fix: a cancelled suspicion timeout must not notify the
 member

ChangeSuspectToDown sent TurnUndead even when the suspicion had been
refuted (or the member was already Down / replaced by a newer identity),
telling a live member that it is down.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..286d99e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -712,9 +712,16 @@ where
                         // Checking only incarnation is sufficient because to refute
                         // suspicion the member must increment its own incarnation
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
                     {
+                        // The suspicion has been refuted, a newer identity took
+                        // over the address or the member is already Down: there's
+                        // nothing to do and the member must not be told it's Down
+                        if !summary.apply_successful {
+                            return Ok(());
+                        }
+
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
                         self.adjust_connection_state(&mut runtime);
-- 
2.43.0


From b5d2ffc1675fa0ed3be8152e3933ba99398756f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 02/16] fix: never announce to a Down identity with our own
 address

The member list may hold a previous identity of this very instance as
Down; periodic_announce_to_down_members would pick it as a destination.
---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 286d99e..c5c52f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -497,6 +497,11 @@ where
             .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
 
         while let Some(chosen) = self.choice_buf.pop() {
+            // One of our previous identities may be known as Down: there's
+            // no point in announcing to ourselves
+            if chosen.id().addr() == self.identity.addr() {
+                continue;
+            }
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
         }
 
-- 
2.43.0


From 1afbee6c97dd98623043dfc2d414777af18135a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 03/16] fix: don't bounce TurnUndead when defunct

Two members that consider each other Down and can't renew their identity
answered every TurnUndead with another one, forever.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c5c52f5..014097a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -978,6 +978,13 @@ where
             // that foca forgets the down member (`Config::remove_down_after`)
             if message == Message::TurnUndead {
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+
+                // Both sides consider each other down and we can't do anything
+                // about it: replying would lead to a never ending exchange of
+                // TurnUndead messages
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
             }
 
             if self.config.notify_down_members {
-- 
2.43.0


From 5b34cf4507c1abc069e21ac0bd08ca402bda90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 04/16] fix: sending after changing max_packet_size must not
 panic

set_config() may change max_packet_size, which made the assertion on the
capacity of the (reused) send buffer fail in builds with debug assertions.
---
 src/lib.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 014097a..ce64d53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1463,12 +1463,6 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
-            "send_buf lost capacity, would trigger unnecessary allocs"
-        );
-
         if let Err(err) = self
             .codec
             .encode_header(&header, &mut buf)
-- 
2.43.0


From d13a40c5f9f992c785ae59a2c4f7372c653e1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 05/16] fix: reject custom broadcasts that don't fit their u16
 length prefix

With max_packet_size > 64KiB add_broadcast() accepted items whose length
was then truncated on the wire (or tripped a debug assertion).
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce64d53..a936870 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -598,8 +598,9 @@ where
             return Err(Error::MalformedPacket);
         }
 
-        // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // Not considering the whole header. Items are prefixed with their
+        // length as u16, anything larger can't be represented
+        if data.len() > self.config.max_packet_size.get() || data.len() > usize::from(u16::MAX) {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From d9fee46b0a5719e36660a24f9756df3e951f8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 06/16] fix: cap the number of members in a Feed to what its
 u16 tally can hold

More than 65535 active members with a huge max_packet_size overflowed
the item counter.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a936870..5f41dba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1434,7 +1434,8 @@ where
         // so header_len / 2 is good enough for identity_len
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
-        usize::max(remaining / identity_len, 5)
+        // The number of items is sent as u16, so that's the most we can use
+        usize::max(remaining / identity_len, 5).min(u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 1b2fbc8f01f3a91f54406ed28939cc3fd687363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 07/16] fix: don't preallocate based on unbounded configuration
 values

A large (but legal) num_indirect_probes or max_packet_size made the
constructor panic with a capacity overflow. Both buffers are reused so
they reach the capacity they need on their own.
---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f41dba..766a634 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,8 +252,6 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
         Self {
             identity,
             config,
@@ -262,12 +260,12 @@ where
             incarnation: Incarnation::default(),
             timer_token: TimerToken::default(),
             members: Members::new(Vec::new()),
-            probe: Probe::new(Vec::with_capacity(max_indirect_probes)),
+            probe: Probe::new(Vec::new()),
             updates_buf: Vec::new(),
             choice_buf: Vec::new(),
             connection_state: ConnectionState::Disconnected,
             updates: Broadcasts::new(),
-            send_buf: Vec::with_capacity(max_bytes),
+            send_buf: Vec::new(),
             custom_broadcasts: Broadcasts::new(),
             broadcast_handler,
         }
-- 
2.43.0


From d3142b525d06e885e58ef06bf8b7738c734d22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 08/16] fix: no division by zero when the encoded header is
 tiny

A codec able to encode the header of a Feed in less than two bytes led
estimate_feed_capacity() to divide by zero.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 766a634..d8a3538 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1433,7 +1433,7 @@ where
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
         // The number of items is sent as u16, so that's the most we can use
-        usize::max(remaining / identity_len, 5).min(u16::MAX.into())
+        usize::max(remaining / identity_len.max(1), 5).min(u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 4a39b4bd554e3b51da4f579b9f73610949017b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 09/16] fix: don't auto-rejoin after leaving the cluster

A renewable instance that called leave_cluster() would rejoin with a new
identity, and answer probes again, as soon as the cluster echoed its own
departure back to it.
---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d8a3538..e9653f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1613,6 +1613,10 @@ where
                 // We need to rejoin the cluster when this situation happens
                 // because it will be impossible to refute suspicion
                 if incarnation == Incarnation::MAX {
+                    // Already defunct: rejoining is up to the user now
+                    if self.connection_state == ConnectionState::Undead {
+                        return Ok(());
+                    }
                     if !self.attempt_rejoin(&mut runtime)? {
                         #[cfg(feature = "tracing")]
                         tracing::debug!("Inactive: reached Incarnation::MAX",);
@@ -1640,6 +1644,11 @@ where
                 // The cluster is talking about our liveness. Nothing to do.
             }
             State::Down => {
+                // Already defunct (i.e. we left the cluster and are now hearing
+                // the cluster talk about it): rejoining is up to the user now
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
                 // It's impossible to refute a Down state so we'll need
                 // to rejoin somehow
                 if !self.attempt_rejoin(&mut runtime)? {
-- 
2.43.0


From 8ab65cf93e7f8955d8eb84d5cb057c688795869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 10/16] fix: stale suspicion is not fatal at the maximum
 incarnation

An instance at Incarnation::MAX became defunct (or renewed its identity)
when hearing about a suspicion on an incarnation lower than its own, which
is already refuted.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e9653f4..5d3d198 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1612,7 +1612,8 @@ where
 
                 // We need to rejoin the cluster when this situation happens
                 // because it will be impossible to refute suspicion
-                if incarnation == Incarnation::MAX {
+                // (suspicion about an old incarnation is already refuted)
+                if increase_incarnation && incarnation == Incarnation::MAX {
                     // Already defunct: rejoining is up to the user now
                     if self.connection_state == ConnectionState::Undead {
                         return Ok(());
-- 
2.43.0


From da21916bff4e56989542845a336782c9058f2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 11/16] fix: a codec error while probing must not end the probe
 loop

When encoding the Ping failed (i.e.: the header doesn't fit the packet)
neither of the probe timers was scheduled so the instance never probed
again.
---
 src/lib.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5d3d198..8b25053 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1142,13 +1142,15 @@ where
     }
 
     fn probe_random_member(&mut self, mut runtime: impl Runtime<T>) -> Result<()> {
-        // NEEDSWORK: A codec error may leave us in a weird state where
-        //            foca talks to the cluster normally but never
-        //            probes their peers. It's, however, unlikely to
-        //            happen as there are many attempts at
-        //            encoding/decoding members before we start probing
         debug_assert_eq!(self.connection_state, ConnectionState::Connected);
 
+        // Re-schedule before anything else: a codec error must not prevent
+        // the next probe from happening
+        runtime.submit_after(
+            Timer::ProbeRandomMember(self.timer_token),
+            self.config.probe_period,
+        );
+
         let probe_was_incomplete = !self.probe.validate();
         if probe_was_incomplete {
             #[cfg(feature = "tracing")]
@@ -1225,15 +1227,15 @@ where
             #[cfg(feature = "tracing")]
             tracing::debug!(member_id = tracing::field::debug(&member_id), "Probe start");
 
-            self.send_message(member_id.clone(), Message::Ping(probe_number), &mut runtime)?;
-
             runtime.submit_after(
                 Timer::SendIndirectProbe {
-                    probed_id: member_id,
+                    probed_id: member_id.clone(),
                     token: self.timer_token,
                 },
                 self.config.probe_rtt,
             );
+
+            self.send_message(member_id, Message::Ping(probe_number), &mut runtime)?;
         } else {
             // Should never happen... Reaching here is gated by being
             // online, which requires having at least one active member
@@ -1241,11 +1243,6 @@ where
             tracing::debug!("Expected to find an active member to probe");
         }
 
-        runtime.submit_after(
-            Timer::ProbeRandomMember(self.timer_token),
-            self.config.probe_period,
-        );
-
         if probe_was_incomplete {
             Err(Error::IncompleteProbeCycle)
         } else {
-- 
2.43.0


From 1284be451e9425452e1d296d1336e7188a109746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 12/16] fix: a failed probe must not resurrect a forgotten
 identity

If the probed identity was declared Down and forgotten while an older
identity of the same address was learned, the failed probe replaced it.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b25053..38165fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1185,7 +1185,8 @@ where
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                // The address may be in use by another identity now
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
                 let is_active_now = summary.is_active_now;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
-- 
2.43.0


From 2f10adc224b6c6f1170ecab4345efbac941752db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 13/16] fix: changing identity must not leave our own address
 as an active member

change_identity() to an address held by an active member left the instance
listing, probing and gossiping to itself.
---
 src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 38165fc..6f14eaa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -312,7 +312,7 @@ where
     ///
     /// Intended to be used when identities carry metadata that occasionally
     /// changes.
-    pub fn change_identity(&mut self, new_id: T, runtime: impl Runtime<T>) -> Result<()> {
+    pub fn change_identity(&mut self, new_id: T, mut runtime: impl Runtime<T>) -> Result<()> {
         if self.identity == new_id {
             Err(Error::SameIdentity)
         } else {
@@ -337,6 +337,21 @@ where
                     .add_or_replace(addr, data, self.config.max_transmissions.get().into());
             }
 
+            // We may know of an active member using what's now our own address.
+            // Same as when receiving updates about it: it's surely stale
+            let own_addr = self.identity.addr();
+            let stale = self
+                .members
+                .iter_active()
+                .find(|member| member.id().addr() == own_addr)
+                .map(|member| Member::down(member.id().clone()));
+            if let Some(stale) = stale {
+                let do_broadcast = stale.id() != &self.identity;
+                if let Some(summary) = self.members.apply_existing_if(stale.clone(), |_| true) {
+                    self.handle_apply_summary(summary, stale, do_broadcast, &mut runtime)?;
+                }
+            }
+
             self.gossip(runtime)?;
 
             Ok(())
-- 
2.43.0


From 2d4049b39abd78c38fbb303b1a0d1495afd341da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 14/16] fix: a member that left must not refute suspicions

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6f14eaa..6b7c29c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1652,7 +1652,11 @@ where
                 // But since the cluster is chatting about us possibly being
                 // down, we'll send a few updates around in order to help
                 // disseminate the refutation
-                self.gossip(runtime)?;
+                // Unless we're defunct (i.e. we left the cluster): actively refuting
+                // would stop the cluster from noticing that we're gone
+                if self.connection_state != ConnectionState::Undead {
+                    self.gossip(runtime)?;
+                }
             }
             State::Alive => {
                 // The cluster is talking about our liveness. Nothing to do.
-- 
2.43.0


From 5a0e634f230a271b104294aef055a6d4508fa1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 15/16] fix: become active right after rejoining in response to
 TurnUndead

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b7c29c..44ed2e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -992,6 +992,8 @@ where
             // that foca forgets the down member (`Config::remove_down_after`)
             if message == Message::TurnUndead {
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+                // We may have rejoined with a new identity
+                self.adjust_connection_state(&mut runtime);
 
                 // Both sides consider each other down and we can't do anything
                 // about it: replying would lead to a never ending exchange of
@@ -1125,7 +1127,9 @@ where
                 #[cfg(feature = "tracing")]
                 tracing::debug!("The cluster thinks we're down");
 
-                self.handle_self_update(Incarnation::default(), State::Down, runtime)?;
+                self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+                // We may have rejoined with a new identity
+                self.adjust_connection_state(runtime);
             }
             // Nothing to do. These messages do not expect any reply
             Message::Gossip | Message::Feed | Message::Broadcast => {}
-- 
2.43.0


From 038df9ffa29839219986e335165886e2a33cc961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:34 +0000
Subject: [PATCH 16/16] fix: drop the needless guard added by d3142b5

The tally of a Feed is already in the buffer when its capacity is estimated,
so identity_len is never zero: the guard protected against nothing.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 44ed2e0..126d2c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1450,7 +1450,7 @@ where
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
         // The number of items is sent as u16, so that's the most we can use
-        usize::max(remaining / identity_len.max(1), 5).min(u16::MAX.into())
+        usize::max(remaining / identity_len, 5).min(u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0

