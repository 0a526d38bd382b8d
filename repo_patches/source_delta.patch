From 9c96daac935332cb879553ca8cb4864e71f87faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:49 +0000
Subject: [PATCH 01/98] verif: add build-tag guarded seam for upstream dialing

---
 upstream.go            |  4 ++--
 upstream_dial.go       | 13 +++++++++++++
 upstream_dial_verif.go | 20 ++++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)
 create mode 100644 upstream_dial.go
 create mode 100644 upstream_dial_verif.go

diff --git a/upstream.go b/upstream.go
index f1e02ed..b4f2d69 100644
--- a/upstream.go
+++ b/upstream.go
@@ -337,7 +337,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 	case "irc+unix", "unix":
 		var dialer net.Dialer
 		logger.Printf("connecting to Unix socket at path %q", u.Path)
-		netConn, err = dialer.DialContext(ctx, "unix", u.Path)
+		netConn, err = dialUpstream(ctx, &dialer, "unix", u.Path)
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to Unix socket %q: %v", u.Path, err)
 		}
@@ -396,7 +396,7 @@ func dialTCP(ctx context.Context, user *user, addr string) (net.Conn, error) {
 		dialer.LocalAddr = localAddr
 	}
 
-	return dialer.DialContext(ctx, "tcp", addr)
+	return dialUpstream(ctx, &dialer, "tcp", addr)
 }
 
 func (uc *upstreamConn) forEachDownstream(f func(*downstreamConn)) {
diff --git a/upstream_dial.go b/upstream_dial.go
new file mode 100644
index 0000000..cc0d878
--- /dev/null
+++ b/upstream_dial.go
@@ -0,0 +1,13 @@
+//go:build !verif
+
+package soju
+
+import (
+	"context"
+	"net"
+)
+
+// dialUpstream opens the transport of an upstream connection.
+func dialUpstream(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error) {
+	return dialer.DialContext(ctx, network, addr)
+}
diff --git a/upstream_dial_verif.go b/upstream_dial_verif.go
new file mode 100644
index 0000000..10b9a0d
--- /dev/null
+++ b/upstream_dial_verif.go
@@ -0,0 +1,20 @@
+//go:build verif
+
+package soju
+
+import (
+	"context"
+	"net"
+)
+
+// VerifDial, when non-nil, replaces the transport of upstream connections. It
+// only exists in builds with the "verif" tag, used by verification harnesses.
+var VerifDial func(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error)
+
+// dialUpstream opens the transport of an upstream connection.
+func dialUpstream(ctx context.Context, dialer *net.Dialer, network, addr string) (net.Conn, error) {
+	if VerifDial != nil {
+		return VerifDial(ctx, dialer, network, addr)
+	}
+	return dialer.DialContext(ctx, network, addr)
+}
-- 
2.43.0


From ebc0c78dc41cc58ef12921500d5b9c10d8fb75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:37 +0000
Subject: [PATCH 02/98] fix: msgstore: return the last message ID instead of
 the next one for memory stores

LastMsgID returned the sequence number of the next message to be appended.
Since LoadLatestID excludes the message with the ID it is passed, the first
message appended after LastMsgID was called was lost from the backlog.
---
 msgstore/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..cd43021 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,7 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		seq = rb.cur - 1 // rb.cur is the sequence number of the next message
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From b656768f578acef064572f07406cd40581c5bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 03/98] fix: upstream: drop stale pending commands instead of
 duplicating the next one

---
 upstream.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/upstream.go b/upstream.go
index b4f2d69..e258709 100644
--- a/upstream.go
+++ b/upstream.go
@@ -450,8 +450,13 @@ func (uc *upstreamConn) forwardMsgByID(ctx context.Context, id uint64, msg *irc.
 }
 
 func (uc *upstreamConn) abortPendingCommands() {
+	uc.sendAbortReplies(uc.pendingCmds)
+	uc.pendingCmds = make(map[string][]pendingUpstreamCommand)
+}
+
+func (uc *upstreamConn) sendAbortReplies(pendingCmds map[string][]pendingUpstreamCommand) {
 	ctx := context.TODO()
-	for _, l := range uc.pendingCmds {
+	for _, l := range pendingCmds {
 		for _, pendingCmd := range l {
 			dc := uc.downstreamByID(pendingCmd.downstreamID)
 			if dc == nil {
@@ -494,8 +499,6 @@ func (uc *upstreamConn) abortPendingCommands() {
 			}
 		}
 	}
-
-	uc.pendingCmds = make(map[string][]pendingUpstreamCommand)
 }
 
 func (uc *upstreamConn) sendNextPendingCommand(cmd string) {
@@ -521,9 +524,12 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 	})
 
 	// If we didn't get a reply after a while, just give up
-	// TODO: consider sending an abort reply to downstream
 	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
+		uc.sendAbortReplies(map[string][]pendingUpstreamCommand{
+			msg.Command: uc.pendingCmds[msg.Command][:1],
+		})
+		uc.dequeueCommand(msg.Command)
+		return
 	}
 
 	if len(uc.pendingCmds[msg.Command]) == 1 {
-- 
2.43.0


From 2006673cc0771c80939e70970ff76a44e5f1e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:37 +0000
Subject: [PATCH 04/98] fix: upstream: don't broadcast error replies for
 commands of departed clients

---
 upstream.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index e258709..c6651d0 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1770,7 +1770,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		dc, cmd := uc.dequeueCommand(command)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
@@ -1779,6 +1780,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.saslStarted = false
 		}
 
+		if cmd != nil && dc == nil {
+			// Downstream connection is gone
+			return nil
+		}
+
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "FAIL":
 		var command, code string
@@ -1790,8 +1796,12 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		dc, cmd := uc.dequeueCommand(command)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
+		} else if cmd != nil && dc == nil {
+			// Downstream connection is gone
+			return nil
 		}
 
 		uc.forwardMsgByID(ctx, downstreamID, msg)
-- 
2.43.0


From c3e2495f2c8db3dfe084598b6eb37ca1263563da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:50 +0000
Subject: [PATCH 05/98] fix: upstream: reset SASL state when AUTHENTICATE is
 rejected with an error

---
 upstream.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/upstream.go b/upstream.go
index c6651d0..c1d5253 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1778,6 +1778,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
+			if dc != nil {
+				dc.sasl = nil
+			}
 		}
 
 		if cmd != nil && dc == nil {
@@ -1797,6 +1800,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		dc, cmd := uc.dequeueCommand(command)
+		if command == "AUTHENTICATE" {
+			uc.saslClient = nil
+			uc.saslStarted = false
+			if dc != nil {
+				dc.sasl = nil
+			}
+		}
 		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		} else if cmd != nil && dc == nil {
-- 
2.43.0


From 9297f40da29c5e7d9a59dd6fea0638fe9bef55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 06/98] fix: user: give up on upstream connections which don't
 complete registration in time

---
 user.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/user.go b/user.go
index 44a16f8..eed0905 100644
--- a/user.go
+++ b/user.go
@@ -245,12 +245,23 @@ func (net *network) runConn(ctx context.Context) error {
 		defer net.user.srv.Identd.Delete(uc.RemoteAddr().String(), uc.LocalAddr().String())
 	}
 
+	// Messages we send are dropped once the timeout is reached, so don't keep
+	// a half-registered connection around
+	deadline, _ := ctx.Deadline()
+	registerTimer := time.AfterFunc(time.Until(deadline), func() {
+		uc.Close()
+	})
+	defer registerTimer.Stop()
+
 	// TODO: this is racy, we're not running in the user goroutine yet
 	// uc.register accesses user/network DB records
 	uc.register(ctx)
 	if err := uc.runUntilRegistered(ctx); err != nil {
 		return fmt.Errorf("failed to register: %w", err)
 	}
+	if !registerTimer.Stop() {
+		return fmt.Errorf("failed to register: %w", context.DeadlineExceeded)
+	}
 
 	net.user.events <- eventUpstreamConnected{uc}
 	defer func() {
-- 
2.43.0


From 16cd1d6fee45d615bab4c6e4e63668491cec0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 07/98] fix: upstream: handle negated ISUPPORT tokens

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index c1d5253..d1b94b2 100644
--- a/upstream.go
+++ b/upstream.go
@@ -962,7 +962,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From d1aca675f3a55633977eab434471cd7c6e349901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:49 +0000
Subject: [PATCH 08/98] fix: upstream: look for the CAP LS continuation marker
 in the right parameter

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index d1b94b2..0782f38 100644
--- a/upstream.go
+++ b/upstream.go
@@ -721,7 +721,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 1be7d9a3054c27f6ad4ba40bbd6517e90b5027ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 09/98] fix: xirc: take line endings into account when
 splitting messages

---
 xirc/genmsg.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 9327d49..2b03236 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -15,7 +15,7 @@ func GenerateJoin(channels, keys []string) []*irc.Message {
 	sort.Sort(&js)
 
 	// Two spaces because there are three words (JOIN, channels and keys)
-	maxLength := maxMessageLength - (len("JOIN") + 2)
+	maxLength := maxMessageLength - (len("JOIN") + 2) - len("\r\n")
 
 	var msgs []*irc.Message
 	var channelsBuf, keysBuf strings.Builder
@@ -136,13 +136,13 @@ func GenerateMOTD(motd string) []*irc.Message {
 }
 
 func GenerateMonitor(subcmd string, targets []string) []*irc.Message {
-	maxLength := maxMessageLength - len("MONITOR "+subcmd+" ")
+	maxLength := maxMessageLength - len("MONITOR "+subcmd+" ") - len("\r\n")
 
 	var msgs []*irc.Message
 	var buf []string
 	n := 0
 	for _, target := range targets {
-		if n+len(target)+1 > maxLength {
+		if len(buf) > 0 && n+len(target)+1 > maxLength {
 			msgs = append(msgs, &irc.Message{
 				Command: "MONITOR",
 				Params:  []string{subcmd, strings.Join(buf, ",")},
@@ -170,7 +170,7 @@ func GenerateNamesReply(channel string, status ChannelStatus, members []string)
 		Command: irc.RPL_NAMREPLY,
 		Params:  []string{"*", string(status), channel, ""},
 	}
-	maxLength := maxMessageLength - len(emptyNameReply.String())
+	maxLength := maxMessageLength - len(emptyNameReply.String()) - len("\r\n")
 
 	var msgs []*irc.Message
 	var buf strings.Builder
-- 
2.43.0


From 3bdec400a21a3d3ea60cc9ae88f3e8e3fa6cab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:06 +0000
Subject: [PATCH 10/98] fix: upstream: stop the auto-detach timer when kicked
 from a channel

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index 0782f38..8305b08 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1275,6 +1275,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
 			if uch := uc.channels.Get(channel); uch != nil {
 				uc.channels.Del(channel)
+				uch.updateAutoDetach(0)
 				uch.Members.ForEach(func(nick string, memberships *xirc.MembershipSet) {
 					if !uc.shouldCacheUserInfo(nick) {
 						uc.users.Del(nick)
-- 
2.43.0


From d59a0ffa74dba3dea8513bc2c58f6cf12b2cdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:06 +0000
Subject: [PATCH 11/98] fix: user: don't panic when attaching a channel whose
 names list is pending

---
 user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index eed0905..248fc0b 100644
--- a/user.go
+++ b/user.go
@@ -387,7 +387,9 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		// If the channel isn't complete yet, it'll be forwarded once we receive
+		// the end of the names list
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 4e3f9e95920aa45f98fd5510607687d2db15e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:06 +0000
Subject: [PATCH 12/98] fix: downstream: send JOIN to new clients for channels
 whose names list is pending

---
 downstream.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..e8008a1 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1582,9 +1582,6 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 
 	dc.forEachUpstream(func(uc *upstreamConn) {
 		uc.channels.ForEach(func(_ string, ch *upstreamChannel) {
-			if !ch.complete {
-				return
-			}
 			record := uc.network.channels.Get(ch.Name)
 			if record != nil && record.Detached {
 				return
@@ -1605,7 +1602,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				Params:  params,
 			})
 
-			forwardChannel(ctx, dc, ch)
+			// If the channel isn't complete yet, it'll be forwarded once we
+			// receive the end of the names list
+			if ch.complete {
+				forwardChannel(ctx, dc, ch)
+			}
 		})
 	})
 
-- 
2.43.0


From 445f1b04e0dbf3df2fb609940fb64b6e00cac730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:06 +0000
Subject: [PATCH 13/98] fix: downstream: announce the detachment of channels
 which aren't saved yet

---
 downstream.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index e8008a1..79cfdb9 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2002,15 +2002,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		for _, name := range strings.Split(namesStr, ",") {
 			if strings.EqualFold(reason, "detach") {
 				ch := uc.network.channels.Get(name)
-				if ch != nil {
-					uc.network.detach(ch)
-				} else {
-					ch = &database.Channel{
-						Name:     name,
-						Detached: true,
-					}
+				if ch == nil {
+					ch = &database.Channel{Name: name}
 					uc.network.channels.Set(ch.Name, ch)
 				}
+				uc.network.detach(ch)
 				if err := dc.srv.db.StoreChannel(ctx, uc.network.ID, ch); err != nil {
 					dc.logger.Printf("failed to create or update channel %q: %v", name, err)
 				}
-- 
2.43.0


From 90de33c2e0f61cbb226bb49b4e9abd6bce8f5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:59 +0000
Subject: [PATCH 14/98] fix: user: close connections which can't be served
 after registration

---
 user.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index 248fc0b..6c4bd2c 100644
--- a/user.go
+++ b/user.go
@@ -584,6 +584,15 @@ func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 	}
 }
 
+func (u *user) hasDownstream(dc *downstreamConn) bool {
+	for _, other := range u.downstreamConns {
+		if other == dc {
+			return true
+		}
+	}
+	return false
+}
+
 func (u *user) getNetwork(name string) *network {
 	for _, network := range u.networks {
 		if network.Addr == name {
@@ -753,7 +762,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -769,7 +778,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -816,7 +825,7 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			if dc.isClosed() || !u.hasDownstream(dc) {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
-- 
2.43.0


From ac4eb64a3a78952158aedc307e2f686ba0afe158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:16 +0000
Subject: [PATCH 15/98] fix: downstream: reject empty SASL OAUTHBEARER
 responses

---
 downstream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/downstream.go b/downstream.go
index 79cfdb9..6f8c254 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1012,6 +1012,15 @@ func (dc *downstreamConn) handleAuthenticate(ctx context.Context, msg *irc.Messa
 		}
 
 		dc.sasl.pendingResp.Reset()
+
+		// OAUTHBEARER clients never send an empty response, and go-sasl panics
+		// when it receives one after a failure
+		if len(resp) == 0 && dc.sasl.mechanism == "OAUTHBEARER" {
+			return nil, ircError{&irc.Message{
+				Command: irc.ERR_SASLFAIL,
+				Params:  []string{dc.nick, "Empty response"},
+			}}
+		}
 	}
 
 	challenge, done, err := dc.sasl.server.Next(resp)
-- 
2.43.0


From 563d626b2dfec96f60ec9e5b6fed83df5cc99304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:09 +0000
Subject: [PATCH 16/98] fix: service: don't partially apply rejected channel
 updates

---
 service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/service.go b/service.go
index 0b8b0cd..cfb1293 100644
--- a/service.go
+++ b/service.go
@@ -1515,9 +1515,11 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	record := *ch // copy channel record because the update may be rejected
+	if err := fs.update(&record); err != nil {
 		return err
 	}
+	*ch = record
 
 	if fs.Detached != nil && *fs.Detached != ch.Detached {
 		if *fs.Detached {
-- 
2.43.0


From 9b6d67ebd3bd26d5e510bf0004f55470dc576c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:09 +0000
Subject: [PATCH 17/98] fix: service: honor the -detached flag when creating a
 channel

---
 service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/service.go b/service.go
index cfb1293..073a47b 100644
--- a/service.go
+++ b/service.go
@@ -1473,6 +1473,9 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&ch); err != nil {
 		return err
 	}
+	if fs.Detached != nil {
+		ch.Detached = *fs.Detached
+	}
 
 	network.channels.Set(ch.Name, &ch)
 
-- 
2.43.0


From 40f0dc192c65683cae36f37157f1fe36a0688f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 18/98] fix: service: don't deadlock when users delete their
 own account

---
 service.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/service.go b/service.go
index 073a47b..ef866fa 100644
--- a/service.go
+++ b/service.go
@@ -1201,26 +1201,38 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
-	}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
+		// We're running in the user's goroutine: wait for it to stop from
+		// another one. We can't use ctx there, because it'll be cancelled once
+		// we close the downstream connection.
+		srv := ctx.srv
+		srv.stopWG.Add(1)
+		go func() {
+			defer srv.stopWG.Done()
+			if err := deleteUser(context.TODO(), srv, u); err != nil {
+				srv.Logger.Printf("failed to delete user %q: %v", username, err)
+			}
+		}()
+		return nil
 	}
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
+	if err := deleteUser(ctx, ctx.srv, u); err != nil {
+		return err
 	}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
-	}
+	ctx.print(fmt.Sprintf("deleted user %q", username))
+	return nil
+}
 
+func deleteUser(ctx context.Context, srv *Server, u *user) error {
+	if err := u.stop(ctx); err != nil {
+		return fmt.Errorf("failed to stop user: %v", err)
+	}
+	if err := srv.db.DeleteUser(ctx, u.ID); err != nil {
+		return fmt.Errorf("failed to delete user: %v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From ba89a06f7075f5f47056bc8b04e1dff8334c3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 19/98] fix: service: don't wait forever for another user to be
 updated

---
 service.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index ef866fa..b24abf6 100644
--- a/service.go
+++ b/service.go
@@ -1126,8 +1126,13 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
-		if err := <-done; err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case err := <-done:
+			if err != nil {
+				return err
+			}
 		}
 
 		ctx.print(fmt.Sprintf("updated user %q", username))
-- 
2.43.0


From 6dbbb2f721f562728914e7d18c3759a529f20bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:01 +0000
Subject: [PATCH 20/98] fix: service: stop running a command as another user
 when the requester is gone

---
 service.go |  1 +
 user.go    | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/service.go b/service.go
index b24abf6..a372933 100644
--- a/service.go
+++ b/service.go
@@ -1264,6 +1264,7 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 
 	msgCh := make(chan userRunMsg, 1)
 	ev := eventUserRun{
+		ctx:    ctx,
 		params: params,
 		ch:     msgCh,
 	}
diff --git a/user.go b/user.go
index 6c4bd2c..9e5cea3 100644
--- a/user.go
+++ b/user.go
@@ -88,6 +88,7 @@ type eventTryRegainNick struct {
 }
 
 type eventUserRun struct {
+	ctx    context.Context
 	params []string
 	ch     chan userRunMsg
 }
@@ -869,7 +870,10 @@ func (u *user) run() {
 		case eventTryRegainNick:
 			e.uc.tryRegainNick(e.nick)
 		case eventUserRun:
-			ctx := context.TODO()
+			ctx := e.ctx
+			if ctx.Err() != nil {
+				break // the requester is gone
+			}
 			err := handleServiceCommand(&serviceContext{
 				Context: ctx,
 				user:    u,
@@ -883,9 +887,7 @@ func (u *user) run() {
 				// so this cannot be used to escalate privileges.
 				admin: true,
 				print: func(text string) {
-					// Avoid blocking on e.print in case our context is canceled.
-					// This is a no-op right now because we use context.TODO(),
-					// but might be useful later when we add timeouts.
+					// Avoid blocking on e.ch in case the requester is gone
 					select {
 					case <-ctx.Done():
 					case e.ch <- userRunMsg{message: text}:
-- 
2.43.0


From fc0f0058f857a4e6aafe8fbbfcb7a8e1a473b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:41 +0000
Subject: [PATCH 21/98] fix: downstream: refuse reserved network name in
 BOUNCER commands

---
 service.go | 3 ---
 user.go    | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/service.go b/service.go
index a372933..f88ad3b 100644
--- a/service.go
+++ b/service.go
@@ -543,9 +543,6 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 		network.Addr = *fs.Addr
 	}
 	if fs.Name != nil {
-		if *fs.Name == "*" {
-			return fmt.Errorf("the network name %q is reserved", *fs.Name)
-		}
 		network.Name = *fs.Name
 	}
 	if fs.Nick != nil {
diff --git a/user.go b/user.go
index 9e5cea3..a0b0e49 100644
--- a/user.go
+++ b/user.go
@@ -1065,6 +1065,9 @@ func (u *user) checkNetwork(record *database.Network) error {
 	if record.GetName() == "" {
 		return fmt.Errorf("network name cannot be empty")
 	}
+	if record.GetName() == "*" {
+		return fmt.Errorf("the network name %q is reserved", record.GetName())
+	}
 	if strings.HasPrefix(record.GetName(), "-") {
 		// Can be mixed up with flags when sending commands to the service
 		return fmt.Errorf("network name cannot start with a dash character")
-- 
2.43.0


From 39f3c0323c3409cfb3e7d54e5845eb43132b5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:45 +0000
Subject: [PATCH 22/98] fix: user: ignore state changes of replaced networks
 when notifying clients

---
 user.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/user.go b/user.go
index a0b0e49..2a354f3 100644
--- a/user.go
+++ b/user.go
@@ -685,7 +685,7 @@ func (u *user) run() {
 				dc.updateAccount(ctx)
 				dc.updateCasemapping()
 			})
-			u.notifyBouncerNetworkState(uc.network.ID, irc.Tags{
+			u.notifyBouncerNetworkState(uc.network, irc.Tags{
 				"state": "connected",
 				"error": "",
 			})
@@ -708,7 +708,7 @@ func (u *user) run() {
 				})
 			}
 			net.lastError = e.err
-			u.notifyBouncerNetworkState(net.ID, irc.Tags{
+			u.notifyBouncerNetworkState(net, irc.Tags{
 				"error": net.lastError.Error(),
 			})
 		case eventUpstreamError:
@@ -718,7 +718,7 @@ func (u *user) run() {
 				sendServiceNOTICE(dc, fmt.Sprintf("disconnected from %s: %v", uc.network.GetName(), e.err))
 			})
 			uc.network.lastError = e.err
-			u.notifyBouncerNetworkState(uc.network.ID, irc.Tags{
+			u.notifyBouncerNetworkState(uc.network, irc.Tags{
 				"error": uc.network.lastError.Error(),
 			})
 		case eventUpstreamMessage:
@@ -942,7 +942,7 @@ func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 		return
 	}
 
-	u.notifyBouncerNetworkState(uc.network.ID, irc.Tags{"state": "disconnected"})
+	u.notifyBouncerNetworkState(uc.network, irc.Tags{"state": "disconnected"})
 
 	if uc.network.lastError == nil {
 		uc.forEachDownstream(func(dc *downstreamConn) {
@@ -953,11 +953,12 @@ func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 	}
 }
 
-func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
-	// Don't send state updates for removed networks
+func (u *user) notifyBouncerNetworkState(network *network, attrs irc.Tags) {
+	// Don't send state updates for networks which have been removed or
+	// replaced with an updated one
 	found := false
 	for _, net := range u.networks {
-		if net.ID == netID {
+		if net == network {
 			found = true
 			break
 		}
@@ -966,7 +967,7 @@ func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
 		return
 	}
 
-	netIDStr := fmt.Sprintf("%v", netID)
+	netIDStr := fmt.Sprintf("%v", network.ID)
 	for _, dc := range u.downstreamConns {
 		if dc.caps.IsEnabled("soju.im/bouncer-networks-notify") {
 			dc.SendMessage(context.TODO(), &irc.Message{
@@ -1106,7 +1107,7 @@ func (u *user) createNetwork(ctx context.Context, record *database.Network, enfo
 	u.addNetwork(network)
 
 	attrs := getNetworkAttrs(network)
-	u.notifyBouncerNetworkState(network.ID, attrs)
+	u.notifyBouncerNetworkState(network, attrs)
 
 	return network, nil
 }
@@ -1186,7 +1187,7 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
-	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
+	u.notifyBouncerNetworkState(updatedNetwork, attrs)
 
 	return updatedNetwork, nil
 }
-- 
2.43.0


From 7f2cb3790b27abef89c0e2e8b1c7ace87b3b054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:49 +0000
Subject: [PATCH 23/98] fix: user: notify clients about removed network
 attributes

---
 user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/user.go b/user.go
index 2a354f3..ba467bd 100644
--- a/user.go
+++ b/user.go
@@ -1145,6 +1145,8 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		return nil, err
 	}
 
+	oldAttrs := getNetworkAttrs(network)
+
 	// Most network changes require us to re-connect to the upstream server
 
 	channels := make([]database.Channel, 0, network.channels.Len())
@@ -1187,6 +1189,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
+	for k := range oldAttrs {
+		if _, ok := attrs[k]; !ok {
+			attrs[k] = "" // the attribute has been removed
+		}
+	}
 	u.notifyBouncerNetworkState(updatedNetwork, attrs)
 
 	return updatedNetwork, nil
-- 
2.43.0


From 08ff43ba871bb9fe44ac564e788c3beeaec0ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:19 +0000
Subject: [PATCH 24/98] fix: user: notify clients about nickname and realname
 changes of networks

---
 downstream.go |  1 +
 user.go       | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/downstream.go b/downstream.go
index 6f8c254..6f12be0 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1847,6 +1847,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 		if dc.network != nil {
 			dc.network.Network.Nick = nick
+			dc.user.notifyBouncerNetworkIdentity(dc.network)
 			if uc := dc.upstream(); uc != nil {
 				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
 					Command: "NICK",
diff --git a/user.go b/user.go
index ba467bd..88f15b1 100644
--- a/user.go
+++ b/user.go
@@ -978,6 +978,13 @@ func (u *user) notifyBouncerNetworkState(network *network, attrs irc.Tags) {
 	}
 }
 
+func (u *user) notifyBouncerNetworkIdentity(network *network) {
+	u.notifyBouncerNetworkState(network, irc.Tags{
+		"nickname": database.GetNick(&u.User, &network.Network),
+		"realname": database.GetRealname(&u.User, &network.Network),
+	})
+}
+
 func (u *user) addNetwork(network *network) {
 	u.networks = append(u.networks, network)
 
@@ -1250,6 +1257,8 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 					Params:  []string{database.GetNick(&u.User, &net.Network)},
 				})
 			}
+
+			u.notifyBouncerNetworkIdentity(net)
 		}
 	}
 
@@ -1273,6 +1282,7 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 						Command: "SETNAME",
 						Params:  []string{database.GetRealname(&u.User, &net.Network)},
 					})
+					u.notifyBouncerNetworkIdentity(net)
 					continue
 				}
 			}
-- 
2.43.0


From d6adf422c851bd3a9fb8df41edfc772f4ddf6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:23 +0000
Subject: [PATCH 25/98] fix: downstream: keep realname set by SETNAME in memory

---
 downstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/downstream.go b/downstream.go
index 6f12be0..46d53e9 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1896,6 +1896,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				})
 
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+					dc.user.notifyBouncerNetworkIdentity(dc.network)
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
-- 
2.43.0


From 9356c4e2ed731dc13042dc680448f479a296dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:26 +0000
Subject: [PATCH 26/98] fix: downstream: don't drop network nickname equal to
 username

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 46d53e9..3556d38 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3117,7 +3117,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
@@ -3161,7 +3161,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
-- 
2.43.0


From 05e8c39a7698e3d2ff9e3f9f7acba878e48a64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:36 +0000
Subject: [PATCH 27/98] fix: user: prefer network names over addresses when
 looking up networks

---
 user.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 88f15b1..1f07164 100644
--- a/user.go
+++ b/user.go
@@ -596,10 +596,14 @@ func (u *user) hasDownstream(dc *downstreamConn) bool {
 
 func (u *user) getNetwork(name string) *network {
 	for _, network := range u.networks {
-		if network.Addr == name {
+		if network.GetName() == name {
 			return network
 		}
-		if network.Name != "" && network.Name == name {
+	}
+	// Fallback to the address: it may be shared with other networks, unlike
+	// the name
+	for _, network := range u.networks {
+		if network.Addr == name {
 			return network
 		}
 	}
-- 
2.43.0


From 58659242dfd55e61cb4af0b245a8954b0ea52821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:15 +0000
Subject: [PATCH 28/98] fix: downstream: support IPv6 addresses in network
 attributes

---
 downstream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 3556d38..dea3c35 100644
--- a/downstream.go
+++ b/downstream.go
@@ -108,7 +108,7 @@ func fillNetworkAddrAttrs(attrs irc.Tags, network *database.Network) {
 		attrs["host"] = host
 		attrs["port"] = port
 	} else if hasHostPort {
-		attrs["host"] = u.Host
+		attrs["host"] = u.Hostname()
 	}
 }
 
@@ -147,6 +147,9 @@ func networkAddrFromAttrs(attrs irc.Tags) string {
 	}
 
 	addr := host
+	if ip := net.ParseIP(host); ip != nil && strings.Contains(host, ":") {
+		addr = "[" + host + "]" // IPv6 address
+	}
 	if port := string(attrs["port"]); port != "" {
 		addr += ":" + port
 	}
-- 
2.43.0


From 8a24ff8cd365f4aa5dea6fc3105489389f27b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:09 +0000
Subject: [PATCH 29/98] fix: user: keep delivery receipts when a network is
 updated

---
 user.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/user.go b/user.go
index 1f07164..fc17cb5 100644
--- a/user.go
+++ b/user.go
@@ -1166,6 +1166,12 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	})
 
 	updatedNetwork := newNetwork(u, record, channels)
+	network.delivered.m.ForEach(func(target string, clients deliveredClientMap) {
+		updatedNetwork.delivered.m.Set(target, clients)
+	})
+	network.pushTargets.ForEach(func(target string, t time.Time) {
+		updatedNetwork.pushTargets.Set(target, t)
+	})
 
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
-- 
2.43.0


From 00c818b4769a59579817ff76aeb07d1196db773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:00 +0000
Subject: [PATCH 30/98] fix: don't panic on an empty channel status

---
 xirc/xirc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xirc/xirc.go b/xirc/xirc.go
index 7c809e3..f135c02 100644
--- a/xirc/xirc.go
+++ b/xirc/xirc.go
@@ -78,8 +78,8 @@ const (
 )
 
 func ParseChannelStatus(s string) (ChannelStatus, error) {
-	if len(s) > 1 {
-		return 0, fmt.Errorf("invalid channel status %q: more than one character", s)
+	if len(s) != 1 {
+		return 0, fmt.Errorf("invalid channel status %q: expected exactly one character", s)
 	}
 	switch cs := ChannelStatus(s[0]); cs {
 	case ChannelPublic, ChannelSecret, ChannelPrivate:
-- 
2.43.0


From 59c34aec16d3ec279879f97b4d83f2a2b755983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:17 +0000
Subject: [PATCH 31/98] fix: keep RPL_ISUPPORT messages within the message
 length limit

---
 xirc/genmsg.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 2b03236..ccf156a 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -84,29 +84,37 @@ func (js *joinSorter) Swap(i, j int) {
 
 func GenerateIsupport(tokens []string) []*irc.Message {
 	maxTokens := maxMessageParams - 2 // 2 reserved params: nick + text
+	text := "are supported"
 
-	// TODO: take into account maxMessageLength as well
-	var msgs []*irc.Message
-	for len(tokens) > 0 {
-		var msgTokens []string
-		if len(tokens) > maxTokens {
-			msgTokens = tokens[:maxTokens]
-			tokens = tokens[maxTokens:]
-		} else {
-			msgTokens = tokens
-			tokens = nil
-		}
+	emptyIsupport := irc.Message{
+		Command: irc.RPL_ISUPPORT,
+		Params:  []string{"*", text},
+	}
+	maxLength := maxMessageLength - len(emptyIsupport.String()) - len("\r\n")
 
-		encodedTokens := make([]string, len(msgTokens))
-		for i, tok := range msgTokens {
-			encodedTokens[i] = isupportEncoder.Replace(tok)
+	var msgs []*irc.Message
+	var buf []string
+	n := 0
+	flush := func() {
+		if len(buf) == 0 {
+			return
 		}
-
 		msgs = append(msgs, &irc.Message{
 			Command: irc.RPL_ISUPPORT,
-			Params:  append(append([]string{"*"}, encodedTokens...), "are supported"),
+			Params:  append(append([]string{"*"}, buf...), text),
 		})
+		buf = nil
+		n = 0
+	}
+	for _, tok := range tokens {
+		tok = isupportEncoder.Replace(tok)
+		if len(buf) >= maxTokens || n+1+len(tok) > maxLength {
+			flush()
+		}
+		buf = append(buf, tok)
+		n += 1 + len(tok)
 	}
+	flush()
 
 	return msgs
 }
-- 
2.43.0


From c2e2e33a87ac18f2d8ae91e053fd3ec6c8f2b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:38 +0000
Subject: [PATCH 32/98] fix: don't escape upstream RPL_ISUPPORT values twice

---
 upstream.go    | 4 ++--
 xirc/genmsg.go | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 8305b08..44dc860 100644
--- a/upstream.go
+++ b/upstream.go
@@ -965,7 +965,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
-				value = token[i+1:]
+				value = xirc.DecodeIsupport(token[i+1:])
 				hasValue = true
 			}
 			parameter = strings.ToUpper(parameter)
@@ -1018,7 +1018,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 
 			if passthroughIsupport[parameter] {
-				downstreamIsupport = append(downstreamIsupport, token)
+				downstreamIsupport = append(downstreamIsupport, xirc.DecodeIsupport(token))
 			}
 		}
 
diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index ccf156a..08d27ab 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -121,6 +121,13 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 
 var isupportEncoder = strings.NewReplacer(" ", "\\x20", "\\", "\\x5C")
 
+var isupportDecoder = strings.NewReplacer("\\x20", " ", "\\x5C", "\\", "\\x5c", "\\", "\\x3D", "=", "\\x3d", "=")
+
+// DecodeIsupport decodes the escape sequences in an RPL_ISUPPORT token.
+func DecodeIsupport(tok string) string {
+	return isupportDecoder.Replace(tok)
+}
+
 func GenerateMOTD(motd string) []*irc.Message {
 	var msgs []*irc.Message
 	msgs = append(msgs, &irc.Message{
-- 
2.43.0


From 7320249ab9318d1beb68b977dee9124b82815dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 33/98] fix: split CAP LS and LIST replies exceeding the
 message length limit

---
 downstream.go  | 30 ++++++++++++++++++------------
 xirc/genmsg.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/downstream.go b/downstream.go
index dea3c35..6b3f20e 100644
--- a/downstream.go
+++ b/downstream.go
@@ -795,6 +795,22 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 	return nil
 }
 
+func (dc *downstreamConn) sendCapList(ctx context.Context, cmd string, caps []string) {
+	if dc.capVersion < 302 {
+		// Multi-line replies are not supported
+		dc.SendMessage(ctx, &irc.Message{
+			Prefix:  dc.srv.prefix(),
+			Command: "CAP",
+			Params:  []string{dc.nick, cmd, strings.Join(caps, " ")},
+		})
+		return
+	}
+
+	for _, msg := range xirc.GenerateCapList(dc.srv.prefix(), dc.nick, cmd, caps) {
+		dc.SendMessage(ctx, msg)
+	}
+}
+
 func (dc *downstreamConn) handleCap(ctx context.Context, msg *irc.Message) error {
 	var cmd string
 	if err := parseMessageParams(msg, &cmd); err != nil {
@@ -828,12 +844,7 @@ func (dc *downstreamConn) handleCap(ctx context.Context, msg *irc.Message) error
 			}
 		}
 
-		// TODO: multi-line replies
-		dc.SendMessage(ctx, &irc.Message{
-			Prefix:  dc.srv.prefix(),
-			Command: "CAP",
-			Params:  []string{dc.nick, "LS", strings.Join(caps, " ")},
-		})
+		dc.sendCapList(ctx, cmd, caps)
 
 		if dc.capVersion >= 302 {
 			// CAP version 302 implicitly enables cap-notify
@@ -849,12 +860,7 @@ func (dc *downstreamConn) handleCap(ctx context.Context, msg *irc.Message) error
 			caps = append(caps, name)
 		}
 
-		// TODO: multi-line replies
-		dc.SendMessage(ctx, &irc.Message{
-			Prefix:  dc.srv.prefix(),
-			Command: "CAP",
-			Params:  []string{dc.nick, "LIST", strings.Join(caps, " ")},
-		})
+		dc.sendCapList(ctx, cmd, caps)
 	case "REQ":
 		if len(args) == 0 {
 			return ircError{&irc.Message{
diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 08d27ab..35185f4 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -128,6 +128,40 @@ func DecodeIsupport(tok string) string {
 	return isupportDecoder.Replace(tok)
 }
 
+// GenerateCapList generates the replies to a CAP LS or CAP LIST command. The
+// client needs to support CAP version 302 to receive multiple lines.
+func GenerateCapList(prefix *irc.Prefix, nick, subcmd string, caps []string) []*irc.Message {
+	emptyCap := irc.Message{
+		Prefix:  prefix,
+		Command: "CAP",
+		Params:  []string{nick, subcmd, "*", ""},
+	}
+	maxLength := maxMessageLength - len(emptyCap.String()) - len("\r\n")
+
+	var msgs []*irc.Message
+	var buf []string
+	n := 0
+	for _, name := range caps {
+		if len(buf) > 0 && n+1+len(name) > maxLength {
+			msgs = append(msgs, &irc.Message{
+				Prefix:  prefix,
+				Command: "CAP",
+				Params:  []string{nick, subcmd, "*", strings.Join(buf, " ")},
+			})
+			buf = buf[:0]
+			n = 0
+		}
+		buf = append(buf, name)
+		n += 1 + len(name)
+	}
+
+	return append(msgs, &irc.Message{
+		Prefix:  prefix,
+		Command: "CAP",
+		Params:  []string{nick, subcmd, strings.Join(buf, " ")},
+	})
+}
+
 func GenerateMOTD(motd string) []*irc.Message {
 	var msgs []*irc.Message
 	msgs = append(msgs, &irc.Message{
-- 
2.43.0


From 9c5b68d9491f8e5cb418865e7cb2a0417c611b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:08 +0000
Subject: [PATCH 34/98] fix: don't send WHOX replies with an empty token

---
 xirc/whox.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xirc/whox.go b/xirc/whox.go
index 070f102..87ca5e7 100644
--- a/xirc/whox.go
+++ b/xirc/whox.go
@@ -26,7 +26,11 @@ type WHOXInfo struct {
 func (info *WHOXInfo) get(k byte) string {
 	switch k {
 	case 't':
-		return info.Token
+		token := "0" // no token has been requested
+		if info.Token != "" {
+			token = info.Token
+		}
+		return token
 	case 'c':
 		channel := info.Channel
 		if channel == "" {
-- 
2.43.0


From 8961abe961232a606c9dda7e9c9f49bc2eb76ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 35/98] verif: allow to replace the SQLite driver

---
 database/sqlite_verif.go | 9 +++++++++
 1 file changed, 9 insertions(+)
 create mode 100644 database/sqlite_verif.go

diff --git a/database/sqlite_verif.go b/database/sqlite_verif.go
new file mode 100644
index 0000000..50c57d9
--- /dev/null
+++ b/database/sqlite_verif.go
@@ -0,0 +1,9 @@
+//go:build verif && !nosqlite
+
+package database
+
+// VerifSetSqliteDriver replaces the database/sql driver used to open SQLite
+// databases. It is only available for verification builds.
+func VerifSetSqliteDriver(name string) {
+	sqliteDriver = name
+}
-- 
2.43.0


From 1b5b50289f90974717beb9cc9c18d41ce5fe9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:35 +0000
Subject: [PATCH 36/98] fix: disable foreign keys while upgrading the SQLite
 schema

Some migrations drop and re-create the Network table. With foreign keys
enforced, this fails as soon as a channel or a delivery receipt refers
to a network, so populated databases could not be upgraded.
---
 database/sqlite.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/database/sqlite.go b/database/sqlite.go
index 753bbaf..d8d31f3 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -294,7 +294,20 @@ func (db *SqliteDB) upgrade() error {
 		return fmt.Errorf("soju (version %d) older than schema (version %d)", len(sqliteMigrations), version)
 	}
 
-	tx, err := db.db.Begin()
+	ctx := context.Background()
+	conn, err := db.db.Conn(ctx)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+
+	// Some migrations re-create tables referenced by others. Foreign keys can
+	// only be disabled outside of a transaction.
+	if _, err := conn.ExecContext(ctx, "PRAGMA foreign_keys = OFF"); err != nil {
+		return fmt.Errorf("failed to disable foreign keys: %v", err)
+	}
+
+	tx, err := conn.BeginTx(ctx, nil)
 	if err != nil {
 		return err
 	}
@@ -318,7 +331,14 @@ func (db *SqliteDB) upgrade() error {
 		return fmt.Errorf("failed to bump schema version: %v", err)
 	}
 
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+
+	if _, err := conn.ExecContext(ctx, "PRAGMA foreign_keys = ON"); err != nil {
+		return fmt.Errorf("failed to re-enable foreign keys: %v", err)
+	}
+	return nil
 }
 
 func (db *SqliteDB) RegisterMetrics(r prometheus.Registerer) error {
-- 
2.43.0


From 83ae47ebfeaf1a4d8f3940b811f8154f07d18e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:02 +0000
Subject: [PATCH 37/98] fix: remove partially uploaded files

When the upload fails or is truncated, don't leave the incomplete file
behind.
---
 fileupload/fs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..070b36b 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -90,9 +90,11 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 	defer f.Close()
 
 	if _, err := io.Copy(f, r); err != nil {
+		os.Remove(f.Name())
 		return "", fmt.Errorf("failed to write file: %w", err)
 	}
 	if err := f.Close(); err != nil {
+		os.Remove(f.Name())
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-- 
2.43.0


From 4cff0ab5153e24d2cfb981e918713adb66aa6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:11 +0000
Subject: [PATCH 38/98] fix: don't let usernames escape the file upload
 directory

Usernames aren't restricted in any way: ".." or "../x" made soju store
uploads outside of the configured directory, and "a/b" inside of another
user's.
---
 fileupload/fs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index 070b36b..2d01332 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -55,7 +55,8 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		}
 	}
 
-	dir := filepath.Join(fs.dir, username)
+	userDir := escapeUsername(username)
+	dir := filepath.Join(fs.dir, userDir)
 	if err := os.MkdirAll(dir, 0700); err != nil {
 		return "", fmt.Errorf("failed to create user upload directory: %w", err)
 	}
@@ -98,5 +99,14 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-	return url.PathEscape(username) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+	return url.PathEscape(userDir) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+}
+
+// escapeUsername turns a username into the name of a directory. Usernames can
+// contain any character.
+func escapeUsername(username string) string {
+	if username == "." || username == ".." {
+		return strings.ReplaceAll(username, ".", "%2E")
+	}
+	return strings.NewReplacer("%", "%25", "/", "%2F").Replace(username)
 }
-- 
2.43.0


From e12ed77690f28ec50f8838193369e32ecbeabef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:52 +0000
Subject: [PATCH 39/98] fix: reject file uploads from disabled users

The IRC and WebSocket listeners turn away disabled users, uploads were
still accepted.
---
 fileupload/fileupload.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fileupload/fileupload.go b/fileupload/fileupload.go
index 07fccf1..b75d580 100644
--- a/fileupload/fileupload.go
+++ b/fileupload/fileupload.go
@@ -275,6 +275,12 @@ func (h *Handler) store(resp http.ResponseWriter, req *http.Request) {
 		return
 	}
 
+	// The user may not exist in the DB yet if it's created on the first login
+	if user, err := h.DB.GetUser(req.Context(), username); err == nil && !user.Enabled {
+		http.Error(resp, "This bouncer account is disabled", http.StatusForbidden)
+		return
+	}
+
 	var mimeType string
 	if contentType := req.Header.Get("Content-Type"); contentType != "" {
 		var (
-- 
2.43.0


From 70eb192b6edfc327f992fe9bd4e95663d7349990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 40/98] fix: include messages sent at midnight in fs message
 store queries

LoadAfterTime walks through the log files day by day, and used midnight
as an exclusive bound for all but the first one.
---
 msgstore/fs.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..7119149 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,7 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+func (ms *fsMessageStore) parseMessagesAfter(ref, start, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +297,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +364,11 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	day := start
+	for remaining > 0 && tries < fsMessageStoreMaxTries && day.Before(end) {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(day, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +379,7 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		day = time.Date(day.Year(), day.Month(), day.Day()+1, 0, 0, 0, 0, day.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 28f455dbb1882c119cacd587ed11126e5239526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 41/98] fix: recognize case-mapped senders in fs message store
 logs

---
 msgstore/znclog/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/znclog/reader.go b/msgstore/znclog/reader.go
index 92196a3..750c68b 100644
--- a/msgstore/znclog/reader.go
+++ b/msgstore/znclog/reader.go
@@ -137,7 +137,8 @@ func UnmarshalLine(line string, user *database.User, network *database.Network,
 		}
 
 		prefix = &irc.Prefix{Name: sender}
-		if entity == sender {
+		// The entity may have been case-mapped, unlike the sender
+		if xirc.CaseMappingRFC1459(entity) == xirc.CaseMappingRFC1459(sender) {
 			// This is a direct message from a user to us. We don't store own
 			// our nickname in the logs, so grab it from the network settings.
 			// Not very accurate since this may not match our nick at the time
-- 
2.43.0


From e87417b4ebd151c662c1952ca4724103662e283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:18 +0000
Subject: [PATCH 42/98] fix: return fs message store targets in ascending order

---
 msgstore/fs.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 7119149..94a2482 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -502,20 +502,19 @@ func (ms *fsMessageStore) ListTargets(ctx context.Context, network *database.Net
 		}
 	}
 
-	// Sort targets by latest message time, backwards or forwards depending on
-	// the order of the time bounds
-	sort.Slice(targets, func(i, j int) bool {
-		t1, t2 := targets[i].LatestMessage, targets[j].LatestMessage
-		if start.Before(end) {
-			return t1.Before(t2)
-		} else {
-			return !t1.Before(t2)
-		}
+	// Sort targets by latest message time
+	sort.SliceStable(targets, func(i, j int) bool {
+		return targets[i].LatestMessage.Before(targets[j].LatestMessage)
 	})
 
-	// Truncate the result if necessary
+	// Truncate the result if necessary: keep the targets closest to the start
+	// bound
 	if len(targets) > limit {
-		targets = targets[:limit]
+		if start.Before(end) {
+			targets = targets[:limit]
+		} else {
+			targets = targets[len(targets)-limit:]
+		}
 	}
 
 	return targets, nil
-- 
2.43.0


From 0ce1c4f96c879cb2b8bb9e7564213b0034f87e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:41 +0000
Subject: [PATCH 43/98] fix: don't count detached channels in the CHATHISTORY
 TARGETS limit

---
 downstream.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 6b3f20e..957d635 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2860,7 +2860,16 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				history, err = store.LoadBeforeTime(ctx, bounds[0], bounds[1], &options)
 			}
 		case "TARGETS":
-			targets, err := store.ListTargets(ctx, &network.Network, bounds[0], bounds[1], limit, eventPlayback)
+			// Detached channels are skipped below, don't let them eat up the
+			// limit
+			detached := 0
+			network.channels.ForEach(func(_ string, ch *database.Channel) {
+				if ch.Detached {
+					detached++
+				}
+			})
+
+			targets, err := store.ListTargets(ctx, &network.Network, bounds[0], bounds[1], limit+detached, eventPlayback)
 			if err != nil {
 				dc.logger.Printf("failed fetching targets for chathistory: %v", err)
 				return ircError{&irc.Message{
@@ -2869,12 +2878,23 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				}}
 			}
 
+			var attached []msgstore.ChatHistoryTarget
+			for _, target := range targets {
+				if ch := network.channels.Get(target.Name); ch == nil || !ch.Detached {
+					attached = append(attached, target)
+				}
+			}
+			targets = attached
+			if len(targets) > limit {
+				if bounds[0].Before(bounds[1]) {
+					targets = targets[:limit]
+				} else {
+					targets = targets[len(targets)-limit:]
+				}
+			}
+
 			dc.SendBatch(ctx, "draft/chathistory-targets", nil, nil, func(batchRef string) {
 				for _, target := range targets {
-					if ch := network.channels.Get(target.Name); ch != nil && ch.Detached {
-						continue
-					}
-
 					dc.SendMessage(ctx, &irc.Message{
 						Tags:    irc.Tags{"batch": batchRef},
 						Command: "CHATHISTORY",
-- 
2.43.0


From a39c749218a2b58e16305b7123d8a4acfe31f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:46 +0000
Subject: [PATCH 44/98] fix: search from the after bound in the database
 message store

---
 msgstore/db.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgstore/db.go b/msgstore/db.go
index 30ff349..3ff2c93 100644
--- a/msgstore/db.go
+++ b/msgstore/db.go
@@ -154,7 +154,7 @@ func (ms *dbMessageStore) Search(ctx context.Context, network *database.Network,
 		Limit:      options.Limit,
 		Sender:     options.From,
 		Text:       options.Text,
-		TakeLast:   true,
+		TakeLast:   options.Start.IsZero(),
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ef2b5a7ca9cd3aad1178fd47cdae5f1bfb3da6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:03 +0000
Subject: [PATCH 45/98] fix: use the most recently stored message as last
 message ID

---
 database/postgres.go | 2 +-
 database/sqlite.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/postgres.go b/database/postgres.go
index 57100e7..5b02cf4 100644
--- a/database/postgres.go
+++ b/database/postgres.go
@@ -809,7 +809,7 @@ func (db *PostgresDB) GetMessageLastID(ctx context.Context, networkID int64, nam
 			SELECT id FROM "MessageTarget"
 			WHERE network = $1 AND target = $2
 		)
-		ORDER BY time DESC LIMIT 1`,
+		ORDER BY id DESC LIMIT 1`,
 		networkID,
 		name,
 	)
diff --git a/database/sqlite.go b/database/sqlite.go
index d8d31f3..fed432c 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1081,7 +1081,7 @@ func (db *SqliteDB) GetMessageLastID(ctx context.Context, networkID int64, name
 	row := db.db.QueryRowContext(ctx, `
 		SELECT m.id FROM Message AS m, MessageTarget AS t
 		WHERE t.network = :network AND t.target = :target AND m.target = t.id
-		ORDER BY m.time DESC LIMIT 1`,
+		ORDER BY m.id DESC LIMIT 1`,
 		sql.Named("network", networkID),
 		sql.Named("target", name),
 	)
-- 
2.43.0


From db7b3ab54f6b1a67f1a6e507cdd1341140187710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:16 +0000
Subject: [PATCH 46/98] fix: don't block forever on events sent to stopped
 users

---
 downstream.go |  6 ++++--
 server.go     | 10 +++++++---
 service.go    | 33 ++++++++++++++++++++-------------
 upstream.go   | 10 ++++++----
 user.go       | 19 +++++++++++++++----
 5 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/downstream.go b/downstream.go
index 957d635..c0e5963 100644
--- a/downstream.go
+++ b/downstream.go
@@ -469,7 +469,7 @@ func (dc *downstreamConn) ReadMessage() (*irc.Message, error) {
 	return msg, nil
 }
 
-func (dc *downstreamConn) readMessages(ch chan<- event) error {
+func (dc *downstreamConn) readMessages(u *user) error {
 	for {
 		msg, err := dc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -478,7 +478,9 @@ func (dc *downstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventDownstreamMessage{msg, dc}
+		if !u.sendEvent(eventDownstreamMessage{msg, dc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/server.go b/server.go
index 1df3dc6..5a0e55d 100644
--- a/server.go
+++ b/server.go
@@ -504,11 +504,11 @@ func (s *Server) Handle(ic ircConn) {
 		return
 	}
 
-	user.events <- eventDownstreamConnected{dc}
-	if err := dc.readMessages(user.events); err != nil {
+	user.sendEvent(eventDownstreamConnected{dc})
+	if err := dc.readMessages(user); err != nil {
 		dc.logger.Printf("%v", err)
 	}
-	user.events <- eventDownstreamDisconnected{dc}
+	user.sendEvent(eventDownstreamDisconnected{dc})
 }
 
 func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, error) {
@@ -785,6 +785,8 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-u.done:
+			continue
 		case u.events <- event:
 			// Event was sent, let's wait for the reply
 		}
@@ -792,6 +794,8 @@ func (s *Server) disableInactiveUsers(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-u.done:
+			continue
 		case err := <-done:
 			if err != nil {
 				return err
diff --git a/service.go b/service.go
index f88ad3b..266cf98 100644
--- a/service.go
+++ b/service.go
@@ -1120,12 +1120,16 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-u.done:
+			return fmt.Errorf("user %q has been stopped", username)
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-u.done:
+			return fmt.Errorf("user %q has been stopped", username)
 		case err := <-done:
 			if err != nil {
 				return err
@@ -1268,26 +1272,29 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-u.done:
+		return fmt.Errorf("user %q has been stopped", username)
 	case u.events <- ev:
 	}
 	for {
+		var msg userRunMsg
 		select {
 		case <-ctx.Done():
-			// This handles a possible race condition:
-			// - we send ev to u.events
-			// - the user goroutine for u stops (because of a crash or user deletion)
-			// - we would block on printCh
-			// Quitting on ctx.Done() prevents us from blocking indefinitely
-			// in case the event is never processed.
-			// TODO: Properly fix this condition by flushing the u.events queue
-			//       and running close(ev.print) in a defer
 			return fmt.Errorf("timeout executing command")
-		case msg := <-msgCh:
-			if msg.message != "" {
-				ctx.print(msg.message)
-			} else {
-				return msg.err
+		case <-u.done:
+			// The user goroutine has stopped, maybe before completing the
+			// command (because of a crash or user deletion)
+			select {
+			case msg = <-msgCh:
+			default:
+				return fmt.Errorf("user %q has been stopped", username)
 			}
+		case msg = <-msgCh:
+		}
+		if msg.message != "" {
+			ctx.print(msg.message)
+		} else {
+			return msg.err
 		}
 	}
 }
diff --git a/upstream.go b/upstream.go
index 44dc860..2d20e42 100644
--- a/upstream.go
+++ b/upstream.go
@@ -107,10 +107,10 @@ func (uc *upstreamChannel) updateAutoDetach(dur time.Duration) {
 	}
 
 	uc.detachTimer = time.AfterFunc(dur, func() {
-		uc.conn.network.user.events <- eventChannelDetach{
+		uc.conn.network.user.sendEvent(eventChannelDetach{
 			uc:   uc.conn,
 			name: uc.Name,
-		}
+		})
 	})
 }
 
@@ -2109,7 +2109,7 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 	return nil
 }
 
-func (uc *upstreamConn) readMessages(ch chan<- event) error {
+func (uc *upstreamConn) readMessages() error {
 	for {
 		msg, err := uc.ReadMessage()
 		if errors.Is(err, io.EOF) {
@@ -2118,7 +2118,9 @@ func (uc *upstreamConn) readMessages(ch chan<- event) error {
 			return fmt.Errorf("failed to read IRC command: %v", err)
 		}
 
-		ch <- eventUpstreamMessage{msg, uc}
+		if !uc.user.sendEvent(eventUpstreamMessage{msg, uc}) {
+			break
+		}
 	}
 
 	return nil
diff --git a/user.go b/user.go
index fc17cb5..ff4a52a 100644
--- a/user.go
+++ b/user.go
@@ -264,12 +264,12 @@ func (net *network) runConn(ctx context.Context) error {
 		return fmt.Errorf("failed to register: %w", context.DeadlineExceeded)
 	}
 
-	net.user.events <- eventUpstreamConnected{uc}
+	net.user.sendEvent(eventUpstreamConnected{uc})
 	defer func() {
-		net.user.events <- eventUpstreamDisconnected{uc}
+		net.user.sendEvent(eventUpstreamDisconnected{uc})
 	}()
 
-	if err := uc.readMessages(net.user.events); err != nil {
+	if err := uc.readMessages(); err != nil {
 		return fmt.Errorf("failed to handle messages: %w", err)
 	}
 
@@ -311,7 +311,7 @@ func (net *network) run() {
 			}
 
 			net.logger.Printf("connection error to %q: %v", net.Addr, text)
-			net.user.events <- eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)}
+			net.user.sendEvent(eventUpstreamConnectionError{net, fmt.Errorf("connection error: %v", err)})
 			net.user.srv.metrics.upstreamConnectErrorsTotal.Inc()
 
 			if !temp {
@@ -1321,6 +1321,17 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	return nil
 }
 
+// sendEvent queues an event to be processed by the user goroutine. It returns
+// false if the user goroutine has been stopped.
+func (u *user) sendEvent(e event) bool {
+	select {
+	case u.events <- e:
+		return true
+	case <-u.done:
+		return false
+	}
+}
+
 func (u *user) stop(ctx context.Context) error {
 	select {
 	case <-u.done:
-- 
2.43.0


From 84cdaca6a9f326121ed0f580b274d9c086077e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:42 +0000
Subject: [PATCH 47/98] fix: close connections of stopped and crashed users

---
 server.go | 11 +++++++++++
 user.go   |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/server.go b/server.go
index 5a0e55d..e3f26d7 100644
--- a/server.go
+++ b/server.go
@@ -504,6 +504,17 @@ func (s *Server) Handle(ic ircConn) {
 		return
 	}
 
+	// The user may stop before it has processed the event
+	handled := make(chan struct{})
+	defer close(handled)
+	go func() {
+		select {
+		case <-user.done:
+			dc.Close()
+		case <-handled:
+		}
+	}()
+
 	user.sendEvent(eventDownstreamConnected{dc})
 	if err := dc.readMessages(user); err != nil {
 		dc.logger.Printf("%v", err)
diff --git a/user.go b/user.go
index ff4a52a..309cfde 100644
--- a/user.go
+++ b/user.go
@@ -621,6 +621,10 @@ func (u *user) getNetworkByID(id int64) *network {
 
 func (u *user) run() {
 	defer func() {
+		// Make sure we don't leave connections behind if we've crashed
+		for _, n := range u.networks {
+			n.stop()
+		}
 		if u.msgStore != nil {
 			if err := u.msgStore.Close(); err != nil {
 				u.logger.Printf("failed to close message store for user %q: %v", u.Username, err)
-- 
2.43.0


From d9b6005adf162183cfb241a31ef127e6d1ca4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:47 +0000
Subject: [PATCH 48/98] fix: don't hold the server lock while sending events to
 users

---
 downstream.go |  6 +++++-
 server.go     | 16 ++++++++++++----
 service.go    |  1 +
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index c0e5963..05307f3 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2447,7 +2447,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				}
 				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
+					select {
+					case <-ctx.Done():
+					case <-u.done:
+					case u.events <- eventBroadcast{broadcastMsg}:
+					}
 				})
 				continue
 			}
diff --git a/server.go b/server.go
index e3f26d7..961efa9 100644
--- a/server.go
+++ b/server.go
@@ -388,11 +388,12 @@ func (s *Server) Shutdown() {
 			s.Logger.Printf("failed to stop listener: %v", err)
 		}
 	}
-	for _, u := range s.users {
-		u.events <- eventStop{}
-	}
 	s.lock.Unlock()
 
+	s.forEachUser(func(u *user) {
+		u.sendEvent(eventStop{})
+	})
+
 	s.Logger.Printf("waiting for users to finish")
 	s.stopWG.Wait()
 
@@ -418,11 +419,18 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 }
 
 func (s *Server) forEachUser(f func(*user)) {
+	// Don't hold the lock while calling f: it may need to wait for a user
+	// goroutine, which may be waiting for the lock
 	s.lock.Lock()
+	users := make([]*user, 0, len(s.users))
 	for _, u := range s.users {
-		f(u)
+		users = append(users, u)
 	}
 	s.lock.Unlock()
+
+	for _, u := range users {
+		f(u)
+	}
 }
 
 func (s *Server) getUser(name string) *user {
diff --git a/service.go b/service.go
index 266cf98..436c861 100644
--- a/service.go
+++ b/service.go
@@ -1633,6 +1633,7 @@ func handleServiceServerNotice(ctx *serviceContext, params []string) error {
 		select {
 		case <-ctx.Done():
 			err = ctx.Err()
+		case <-u.done:
 		case u.events <- eventBroadcast{broadcastMsg}:
 			sent++
 		}
-- 
2.43.0


From 80a0c88217fa0f07d08bbb1e70747d81c356ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 49/98] fix: don't create users while shutting down

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 961efa9..3cebe3e 100644
--- a/server.go
+++ b/server.go
@@ -406,6 +406,9 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	if s.shutdown {
+		return nil, fmt.Errorf("server is shutting down")
+	}
 	if _, ok := s.users[user.Username]; ok {
 		return nil, fmt.Errorf("user %q already exists", user.Username)
 	}
-- 
2.43.0


From a5bf027a21e749f7a4d507801e6ee0eea31cc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:09 +0000
Subject: [PATCH 50/98] fix: send extended JOIN messages when attaching
 channels

---
 user.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 309cfde..fff2619 100644
--- a/user.go
+++ b/user.go
@@ -381,11 +381,21 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 		net.conn.updateChannelAutoDetach(ch.Name)
 	}
 
+	account, realname := "*", database.GetRealname(&net.user.User, &net.Network)
+	if net.conn != nil {
+		realname = net.conn.realname
+		if net.conn.account != "" {
+			account = net.conn.account
+		}
+	}
+
 	net.forEachDownstream(func(dc *downstreamConn) {
+		// SendMessage strips the parameters for clients which don't support
+		// extended-join
 		dc.SendMessage(ctx, &irc.Message{
 			Prefix:  dc.prefix(),
 			Command: "JOIN",
-			Params:  []string{ch.Name},
+			Params:  []string{ch.Name, account, realname},
 		})
 
 		// If the channel isn't complete yet, it'll be forwarded once we receive
-- 
2.43.0


From 34f53c4aae7ca0070941c02698163f5cc2e35400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 51/98] fix: tell clients about changed values of upstream
 capabilities

---
 upstream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/upstream.go b/upstream.go
index 2d20e42..cfcd017 100644
--- a/upstream.go
+++ b/upstream.go
@@ -767,6 +767,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 			uc.handleSupportedCaps(subParams[0])
 			uc.updateCaps(ctx)
+
+			// The values of capabilities we've already enabled may have changed
+			if uc.registered {
+				uc.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateSupportedCaps(ctx)
+				})
+			}
 		case "DEL":
 			if len(subParams) < 1 {
 				return newNeedMoreParamsError(msg.Command)
-- 
2.43.0


From 17ed614d730b570d859e8d86ef119bb6f6df3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:02 +0000
Subject: [PATCH 52/98] fix: don't crash on empty nicknames sent by servers

---
 upstream.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index cfcd017..e729980 100644
--- a/upstream.go
+++ b/upstream.go
@@ -618,7 +618,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 	}
 
-	if msg.Prefix == nil {
+	if msg.Prefix == nil || msg.Prefix.Name == "" {
 		msg.Prefix = uc.serverPrefix
 	}
 
@@ -934,10 +934,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			dc.SendMessage(ctx, msg)
 		}
 	case irc.RPL_WELCOME:
-		if err := parseMessageParams(msg, &uc.nick); err != nil {
+		var nick string
+		if err := parseMessageParams(msg, &nick); err != nil {
 			return err
 		}
+		if nick == "" {
+			return fmt.Errorf("unexpected empty nickname in RPL_WELCOME")
+		}
 
+		uc.nick = nick
 		uc.registered = true
 		uc.serverPrefix = msg.Prefix
 		uc.logger.Printf("connection registered with nick %q", uc.nick)
@@ -1098,6 +1103,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if err := parseMessageParams(msg, &newNick); err != nil {
 			return err
 		}
+		if newNick == "" {
+			return fmt.Errorf("unexpected empty nickname in NICK")
+		}
 
 		me := false
 		if uc.isOurNick(msg.Prefix.Name) {
-- 
2.43.0


From 1052d92efc9579f4d62abe8f7ca0726623d145b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:07 +0000
Subject: [PATCH 53/98] fix: don't crash when a client restarts SASL before the
 server answers

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index e729980..13d55bc 100644
--- a/upstream.go
+++ b/upstream.go
@@ -905,7 +905,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslStarted = false
 
 		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
-			if msg.Command == irc.RPL_SASLSUCCESS {
+			if msg.Command == irc.RPL_SASLSUCCESS && dc.sasl.plain != nil {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
 
-- 
2.43.0


From eeb4d6bf07210979d6b629f5abaf36ed78bfb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:43 +0000
Subject: [PATCH 54/98] fix: welcome clients without network with the user's
 nickname

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 05307f3..7cb7d96 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1488,7 +1488,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 	} else if dc.network != nil {
 		dc.nick = database.GetNick(&dc.user.User, &dc.network.Network)
 	} else {
-		dc.nick = dc.user.Username
+		dc.nick = database.GetNick(&dc.user.User, nil)
 	}
 	dc.nickCM = dc.casemap(dc.nick)
 
-- 
2.43.0


From c09ae9cb54db150ce0dc200015e1b10a7ea095ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:48 +0000
Subject: [PATCH 55/98] fix: keep track of the real name of clients without
 setname

---
 downstream.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index 7cb7d96..d9378fa 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1206,10 +1206,6 @@ func (dc *downstreamConn) updateHost(ctx context.Context) {
 }
 
 func (dc *downstreamConn) updateRealname(ctx context.Context) {
-	if !dc.caps.IsEnabled("setname") {
-		return
-	}
-
 	var realname string
 	if uc := dc.upstream(); uc != nil {
 		realname = uc.realname
-- 
2.43.0


From af38f4a6ad943f1430370c3e36fc09cb9a5964d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 56/98] fix: tell all clients about nickname and real name
 changes while disconnected

---
 downstream.go | 18 ++++--------------
 user.go       | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/downstream.go b/downstream.go
index d9378fa..691f57a 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1861,13 +1861,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  []string{nick},
 				})
 			} else {
-				dc.updateNick(ctx)
-			}
-		} else {
-			for _, c := range dc.user.downstreamConns {
-				if c.network == nil {
-					c.updateNick(ctx)
-				}
+				dc.network.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateNick(ctx)
+					dc.updateRealname(ctx)
+				})
 			}
 		}
 	case "SETNAME":
@@ -1926,13 +1923,6 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}}
 		}
 
-		if dc.network == nil {
-			for _, c := range dc.user.downstreamConns {
-				if c.network == nil {
-					c.updateRealname(ctx)
-				}
-			}
-		}
 	case "JOIN":
 		uc, err := dc.upstreamForCommand(msg.Command)
 		if err != nil {
diff --git a/user.go b/user.go
index fff2619..4788ce8 100644
--- a/user.go
+++ b/user.go
@@ -946,6 +946,8 @@ func (u *user) handleUpstreamDisconnected(uc *upstreamConn) {
 
 	uc.forEachDownstream(func(dc *downstreamConn) {
 		dc.updateSupportedCaps(context.TODO())
+		dc.updateNick(context.TODO())
+		dc.updateRealname(context.TODO())
 	})
 
 	// If the network has been removed, don't send a state change notification
@@ -1215,6 +1217,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 		}
 	}
 
+	updatedNetwork.forEachDownstream(func(dc *downstreamConn) {
+		dc.updateNick(ctx)
+		dc.updateRealname(ctx)
+	})
+
 	// This will re-connect to the upstream server
 	u.addNetwork(updatedNetwork)
 
@@ -1325,6 +1332,14 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 		}
 	}
 
+	// Connected networks tell clients when the change has been accepted
+	for _, dc := range u.downstreamConns {
+		if dc.upstream() == nil {
+			dc.updateNick(ctx)
+			dc.updateRealname(ctx)
+		}
+	}
+
 	if !u.Enabled {
 		// TODO: send an error message before disconnecting
 		for _, dc := range u.downstreamConns {
-- 
2.43.0


From 06be74a5dc037a7d4d55aa1d15d0b669328712c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:10 +0000
Subject: [PATCH 57/98] fix: use nicknames changed while registering

---
 upstream.go | 4 +++-
 user.go     | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 13d55bc..69cfc16 100644
--- a/upstream.go
+++ b/upstream.go
@@ -234,7 +234,8 @@ type upstreamConn struct {
 
 	gotMotd bool
 
-	hasDesiredNick bool
+	hasDesiredNick   bool
+	registrationNick string // desired nick when registering
 }
 
 func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, error) {
@@ -2061,6 +2062,7 @@ func splitSpace(s string) []string {
 
 func (uc *upstreamConn) register(ctx context.Context) {
 	uc.nick = database.GetNick(&uc.user.User, &uc.network.Network)
+	uc.registrationNick = uc.nick
 	uc.username = database.GetUsername(&uc.user.User, &uc.network.Network)
 	uc.realname = database.GetRealname(&uc.user.User, &uc.network.Network)
 
diff --git a/user.go b/user.go
index 4788ce8..63f8c85 100644
--- a/user.go
+++ b/user.go
@@ -686,6 +686,11 @@ func (u *user) run() {
 
 			uc.network.conn = uc
 
+			// The nick may have been changed while we were registering
+			if database.GetNick(&u.User, &uc.network.Network) != uc.registrationNick {
+				uc.hasDesiredNick = false
+			}
+
 			uc.updateAway()
 			uc.updateMonitor()
 
-- 
2.43.0


From 54e0e49e2aa867f53cd9ed435e1cbdc04973a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:52 +0000
Subject: [PATCH 58/98] fix: use the time told by the server for topic changes

---
 upstream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 69cfc16..aeb0572 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1354,7 +1354,10 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if len(msg.Params) > 1 {
 			ch.Topic = msg.Params[1]
 			ch.TopicWho = msg.Prefix.Copy()
-			ch.TopicTime = time.Now() // TODO use msg.Tags["time"]
+			ch.TopicTime = time.Now()
+			if t, err := time.Parse(xirc.ServerTimeLayout, string(msg.Tags["time"])); err == nil {
+				ch.TopicTime = t
+			}
 		} else {
 			ch.Topic = ""
 		}
-- 
2.43.0


From 4b36995b116661ec16e9213e0e4d923e63aee90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 59/98] fix: keep cached WHO replies up to date with host
 changes

---
 upstream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/upstream.go b/upstream.go
index aeb0572..11d9136 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1179,6 +1179,13 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			Host: newHostname,
 		}
 
+		if uc.shouldCacheUserInfo(msg.Prefix.Name) {
+			uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+				Username: newUsername,
+				Hostname: newHostname,
+			})
+		}
+
 		if uc.isOurNick(msg.Prefix.Name) {
 			uc.logger.Printf("changed prefix from %q to %q", msg.Prefix.Host, newPrefix)
 			uc.username = newUsername
-- 
2.43.0


From 3bb2322e6342c47e79dca3e99d348b528ef6cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:58 +0000
Subject: [PATCH 60/98] fix: don't stop monitoring the desired nickname

---
 upstream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/upstream.go b/upstream.go
index 11d9136..4ac19d8 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2332,9 +2332,13 @@ func (uc *upstreamConn) updateMonitor() {
 
 	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 	wantNickCM := uc.network.casemap(wantNick)
-	if _, ok := add[wantNickCM]; !ok && !uc.monitored.Has(wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
-		addList = append(addList, wantNickCM)
-		add[wantNickCM] = struct{}{}
+	if !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		if uc.monitored.Has(wantNick) {
+			seen[wantNickCM] = struct{}{}
+		} else if _, ok := add[wantNickCM]; !ok {
+			addList = append(addList, wantNickCM)
+			add[wantNickCM] = struct{}{}
+		}
 	}
 
 	removeAll := true
-- 
2.43.0


From 3eeab3351828c3d914817e6617c05090282b80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:46 +0000
Subject: [PATCH 61/98] fix: stop monitoring nicknames removed before the
 server's reply

---
 upstream.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 4ac19d8..62e3ac4 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1691,9 +1691,19 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		targets := strings.Split(targetsStr, ",")
 
 		online := msg.Command == irc.RPL_MONONLINE
+		var removeList []string
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
-			uc.monitored.Set(prefix.Name, online)
+			if uc.wantsMonitor(prefix.Name) {
+				uc.monitored.Set(prefix.Name, online)
+			} else {
+				// The target has been removed before we received the reply
+				uc.monitored.Del(prefix.Name)
+				removeList = append(removeList, prefix.Name)
+			}
+		}
+		for _, msg := range xirc.GenerateMonitor("-", removeList) {
+			uc.SendMessage(ctx, msg)
 		}
 
 		// Check if the nick we want is now free
@@ -2376,6 +2386,20 @@ func (uc *upstreamConn) updateMonitor() {
 	}
 }
 
+// wantsMonitor checks whether the nickname is monitored by a downstream
+// connection or is the one we'd like to get.
+func (uc *upstreamConn) wantsMonitor(nick string) bool {
+	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
+	if !uc.hasDesiredNick && !uc.isOurNick(wantNick) && uc.network.equalCasemap(nick, wantNick) {
+		return true
+	}
+	found := false
+	uc.forEachDownstream(func(dc *downstreamConn) {
+		found = found || dc.monitored.Has(nick)
+	})
+	return found
+}
+
 func (uc *upstreamConn) stopRegainNickTimer() {
 	if uc.regainNickTimer != nil {
 		uc.regainNickTimer.Stop()
-- 
2.43.0


From 27cbf3e1ab00ac6cdf7ef834fdd06272a694676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 62/98] fix: treat an empty away message as not being away

---
 downstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 691f57a..42518e8 100644
--- a/downstream.go
+++ b/downstream.go
@@ -783,7 +783,7 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 			}}
 		}
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
@@ -2621,7 +2621,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		uc.logger.Printf("starting %v with account name %v", msg.Command, msg.Params[0])
 		uc.enqueueCommand(dc, msg)
 	case "AWAY":
-		if len(msg.Params) > 0 {
+		if len(msg.Params) > 0 && msg.Params[0] != "" {
 			dc.away = &msg.Params[0]
 		} else {
 			dc.away = nil
-- 
2.43.0


From aa8968a110fab381b335a8ad18fa216f66e0011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 63/98] fix: only request echo-message when the server offers
 it

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 62e3ac4..bf6e5dd 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1992,7 +1992,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From eacaec4da37728b3e1cf6c4469a381187ae7dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 64/98] fix: end registration when the server refuses the SASL
 capability

---
 upstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/upstream.go b/upstream.go
index bf6e5dd..4c9e4b5 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2045,6 +2045,12 @@ func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool)
 		}
 		if !ok {
 			uc.logger.Printf("server refused to acknowledge the SASL capability")
+			if !uc.registered {
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 			return nil
 		}
 
-- 
2.43.0


From 3f48f18ccf1ec086861a92873bcd1386c00a9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:00 +0000
Subject: [PATCH 65/98] fix: keep SASL credentials on unrelated NickServ SET
 commands

---
 downstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/downstream.go b/downstream.go
index 42518e8..853eeb9 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3448,6 +3448,8 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
 			username = nick
 			password = params[1]
+		} else {
+			return "", "", false
 		}
 	default:
 		return "", "", false
-- 
2.43.0


From a5477748b806d47e207a60e28df58ba5920999b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 66/98] fix: don't forward PASS to the upstream server

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 853eeb9..950d38b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1809,7 +1809,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		}
 		token := msg.Params[len(msg.Params)-1]
 		dc.handlePong(token)
-	case "USER":
+	case "PASS", "USER":
 		return ircError{&irc.Message{
 			Command: irc.ERR_ALREADYREGISTERED,
 			Params:  []string{dc.nick, "You may not reregister"},
-- 
2.43.0


From 791c3b0584884ac7e2d6e9430c8f7ad774a74eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 67/98] fix: don't leak upstream labels to clients

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 950d38b..3c6e660 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2496,7 +2496,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-				Tags:    tags,
+				Tags:    tags.Copy(),
 				Command: msg.Command,
 				Params:  upstreamParams,
 			})
-- 
2.43.0


From 656df656af3f41c2384017f2dbfb0e638f5952ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 68/98] fix: don't log the parameters of failed registration
 commands

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 3c6e660..83c6264 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1757,7 +1757,7 @@ func (dc *downstreamConn) runUntilRegistered() error {
 			ircErr.Message.Prefix = dc.srv.prefix()
 			dc.SendMessage(ctx, ircErr.Message)
 		} else if err != nil {
-			return fmt.Errorf("failed to handle IRC command %q: %v", msg, err)
+			return fmt.Errorf("failed to handle IRC command %q: %v", msg.Command, err)
 		}
 
 		if dc.registration.nick == "" || dc.registration.username == "" || dc.registration.negotiatingCaps {
-- 
2.43.0


From 26b7eab7afe6c30d61803f02b7a1ba5180e09680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 69/98] fix: complete user deletions which take a long time

---
 service.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/service.go b/service.go
index 436c861..d04c9cc 100644
--- a/service.go
+++ b/service.go
@@ -1209,23 +1209,34 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
+	}
 
-		// We're running in the user's goroutine: wait for it to stop from
-		// another one. We can't use ctx there, because it'll be cancelled once
-		// we close the downstream connection.
-		srv := ctx.srv
-		srv.stopWG.Add(1)
-		go func() {
-			defer srv.stopWG.Done()
-			if err := deleteUser(context.TODO(), srv, u); err != nil {
-				srv.Logger.Printf("failed to delete user %q: %v", username, err)
-			}
-		}()
+	// We may be running in the user's goroutine: wait for it to stop from
+	// another one. We can't use ctx there, because it'll be cancelled once we
+	// close the downstream connection, and we don't want to leave a stopped
+	// user behind if it takes a while.
+	srv := ctx.srv
+	done := make(chan error, 1)
+	srv.stopWG.Add(1)
+	go func() {
+		defer srv.stopWG.Done()
+		err := deleteUser(context.TODO(), srv, u)
+		if err != nil {
+			srv.Logger.Printf("failed to delete user %q: %v", username, err)
+		}
+		done <- err
+	}()
+	if self {
 		return nil
 	}
 
-	if err := deleteUser(ctx, ctx.srv, u); err != nil {
-		return err
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case err := <-done:
+		if err != nil {
+			return err
+		}
 	}
 
 	ctx.print(fmt.Sprintf("deleted user %q", username))
-- 
2.43.0


From 87c32bd0c7a5aab651582d7f448fda82f9002961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:53 +0000
Subject: [PATCH 70/98] fix: don't alter messages queued for other clients when
 sending a backlog

---
 downstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downstream.go b/downstream.go
index 83c6264..d98b52c 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1705,6 +1705,9 @@ func (dc *downstreamConn) sendTargetBacklog(ctx context.Context, net *network, t
 					dc.relayDetachedMessage(net, msg)
 				}
 			} else {
+				// The memory message store shares messages with the outgoing
+				// queues of other connections
+				msg = msg.Copy()
 				msg.Tags["batch"] = batchRef
 				dc.SendMessage(ctx, msg)
 			}
-- 
2.43.0


From dd2ab1309e01fdc41c59e55ecc2aab22bc9363cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 71/98] fix: look at the whole text when checking for
 highlights

---
 irc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irc.go b/irc.go
index b0f70e8..ddf5ede 100644
--- a/irc.go
+++ b/irc.go
@@ -265,11 +265,13 @@ func isHighlight(text, nick string) bool {
 		panic("isHighlight called with empty nick")
 	}
 
+	start := 0
 	for {
-		i := strings.Index(text, nick)
+		i := strings.Index(text[start:], nick)
 		if i < 0 {
 			return false
 		}
+		i += start
 
 		left, _ := utf8.DecodeLastRuneInString(text[:i])
 		right, _ := utf8.DecodeRuneInString(text[i+len(nick):])
@@ -277,7 +279,7 @@ func isHighlight(text, nick string) bool {
 			return true
 		}
 
-		text = text[i+len(nick):]
+		start = i + len(nick)
 	}
 }
 
-- 
2.43.0


From 9b8932b8381d4b70159400898ac73bb41251cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:02 +0000
Subject: [PATCH 72/98] fix: accept WEBPUSH subcommands in any case

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index d98b52c..e82952b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3246,7 +3246,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			return err
 		}
 
-		switch subcommand {
+		switch strings.ToUpper(subcommand) {
 		case "REGISTER":
 			var endpoint, keysStr string
 			if err := parseMessageParams(msg, nil, &endpoint, &keysStr); err != nil {
-- 
2.43.0


From 470877a450aae1ea603df24f04244591527b86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:07 +0000
Subject: [PATCH 73/98] fix: accept Web Push endpoints with a port

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index e82952b..1f8fae6 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3542,7 +3542,7 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 		return fmt.Errorf("scheme must be HTTPS")
 	}
 
-	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Host)
+	ips, err := net.DefaultResolver.LookupIP(ctx, "ip", u.Hostname())
 	if err != nil {
 		return fmt.Errorf("DNS lookup failed: %v", err)
 	}
-- 
2.43.0


From e8114499990286c53b6f2f1c12d91a51d31cf0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 74/98] fix: send push notifications for highlights in unsaved
 channels

---
 upstream.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 4c9e4b5..e22474c 100644
--- a/upstream.go
+++ b/upstream.go
@@ -685,13 +685,12 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		sendPushNotification := !self
 		ch := uc.network.channels.Get(bufferName)
-		highlight := false
+		highlight := uc.isChannel(bufferName) && msg.Command != "TAGMSG" && !self && uc.network.isHighlight(msg)
 		if ch != nil && msg.Command != "TAGMSG" && !self {
 			if ch.Detached {
 				uc.handleDetachedMessage(ctx, ch, msg)
 			}
 
-			highlight = uc.network.isHighlight(msg)
 			if ch.DetachOn == database.FilterMessage || ch.DetachOn == database.FilterDefault || (ch.DetachOn == database.FilterHighlight && highlight) {
 				uc.updateChannelAutoDetach(bufferName)
 			}
-- 
2.43.0


From d4c27cd7bb6d0d5753124eb84c957d6db60bd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:19 +0000
Subject: [PATCH 75/98] fix: send push notifications for messages with many
 tags

---
 server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 3cebe3e..00c93e2 100644
--- a/server.go
+++ b/server.go
@@ -333,6 +333,9 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 	ctx, cancel := context.WithTimeout(ctx, 15*time.Second)
 	defer cancel()
 
+	const recordSize = 2048
+	const maxPayloadLen = recordSize - 103 // header, delimiter and authentication tag
+
 	var urgency webpush.Urgency
 	switch msg.Command {
 	case "PRIVMSG", "NOTICE", "INVITE":
@@ -352,7 +355,7 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 		Subscriber: "webpush@soju.im",
 		TTL:        7 * 24 * 60 * 60, // seconds
 		Urgency:    urgency,
-		RecordSize: 2048,
+		RecordSize: recordSize,
 	}
 
 	if vapidPubKey != options.VAPIDPublicKey {
@@ -360,6 +363,17 @@ func (s *Server) sendWebPush(ctx context.Context, sub *webpush.Subscription, vap
 	}
 
 	payload := []byte(msg.String())
+	if len(payload) > maxPayloadLen {
+		// Drop most tags if the message is too large
+		msg = msg.Copy()
+		for name := range msg.Tags {
+			if name != "msgid" && name != "time" {
+				delete(msg.Tags, name)
+			}
+		}
+		payload = []byte(msg.String())
+	}
+
 	resp, err := webpush.SendNotificationWithContext(ctx, payload, sub, &options)
 	if err != nil {
 		return err
-- 
2.43.0


From e446fe45765a6db864ef341d9e0a645e5bd0e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 76/98] fix: accept irc+unix addresses in service commands

---
 service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index d04c9cc..17c74dc 100644
--- a/service.go
+++ b/service.go
@@ -535,9 +535,9 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 		if addrParts := strings.SplitN(*fs.Addr, "://", 2); len(addrParts) == 2 {
 			scheme := addrParts[0]
 			switch scheme {
-			case "ircs", "irc+insecure", "unix":
+			case "ircs", "irc+insecure", "irc+unix", "unix":
 			default:
-				return fmt.Errorf("unknown scheme %q (supported schemes: ircs, irc+insecure, unix)", scheme)
+				return fmt.Errorf("unknown scheme %q (supported schemes: ircs, irc+insecure, irc+unix)", scheme)
 			}
 		}
 		network.Addr = *fs.Addr
-- 
2.43.0


From b33f490560e8994cb78732b0293a083a391161cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:58 +0000
Subject: [PATCH 77/98] fix: end the SASL exchange when an identity is refused

---
 downstream.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 1f8fae6..b32dc71 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2569,10 +2569,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		switch credentials.mechanism {
 		case "PLAIN":
 			if credentials.plain.Identity != "" && credentials.plain.Identity != credentials.plain.Username {
-				return ircError{&irc.Message{
+				dc.endSASL(ctx, &irc.Message{
 					Command: irc.ERR_SASLFAIL,
 					Params:  []string{dc.nick, "SASL PLAIN identity not supported"},
-				}}
+				})
+				break
 			}
 
 			uc.logger.Printf("starting post-registration SASL PLAIN authentication with username %q", credentials.plain.Username)
-- 
2.43.0


From 6c22a0f7a3adb3c0c310ddb34dfbcd10e2787b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:56 +0000
Subject: [PATCH 78/98] fix: count open sessions as activity when the bouncer
 stops

---
 user.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/user.go b/user.go
index 63f8c85..9f1574d 100644
--- a/user.go
+++ b/user.go
@@ -922,8 +922,13 @@ func (u *user) run() {
 			case e.ch <- userRunMsg{err: err}:
 			}
 		case eventStop:
+			interacted := false
 			for _, dc := range u.downstreamConns {
 				dc.Close()
+				interacted = interacted || !dc.impersonating
+			}
+			if interacted {
+				u.bumpDownstreamInteractionTime(context.TODO())
 			}
 			for _, n := range u.networks {
 				n.stop()
-- 
2.43.0


From 3d28acae1f3e787c10382ae00d14f0840f3024c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:37 +0000
Subject: [PATCH 79/98] fix: offer SASL to clients only once the server has
 enabled it

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index b32dc71..5bdd182 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1126,7 +1126,7 @@ func (dc *downstreamConn) updateSupportedCaps(ctx context.Context) {
 		}
 	}
 
-	if uc := dc.upstream(); uc != nil && uc.supportsSASL("PLAIN") {
+	if uc := dc.upstream(); uc != nil && uc.caps.IsEnabled("sasl") && uc.supportsSASL("PLAIN") {
 		dc.setSupportedCap(ctx, "sasl", "PLAIN,ANONYMOUS")
 	} else if dc.network != nil {
 		dc.unsetSupportedCap(ctx, "sasl")
-- 
2.43.0


From 0f35f532310ff370119406e606af765b7b53ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:46 +0000
Subject: [PATCH 80/98] fix: stop asking for echoes once the server stops
 labelling

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index e22474c..eca64f0 100644
--- a/upstream.go
+++ b/upstream.go
@@ -783,6 +783,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			for _, c := range caps {
 				uc.caps.Del(c)
 			}
+			uc.updateCaps(ctx)
 
 			if uc.registered {
 				uc.forEachDownstream(func(dc *downstreamConn) {
-- 
2.43.0


From 8d31467a1ee41176b72b6171e5b768e65e6c7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:22 +0000
Subject: [PATCH 81/98] fix: keep labels when the server lacks message-tags

---
 upstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/upstream.go b/upstream.go
index eca64f0..6e2aa11 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2171,8 +2171,12 @@ func (uc *upstreamConn) readMessages() error {
 
 func (uc *upstreamConn) SendMessage(ctx context.Context, msg *irc.Message) {
 	if !uc.caps.IsEnabled("message-tags") {
+		label, ok := msg.Tags["label"]
 		msg = msg.Copy()
 		msg.Tags = nil
+		if ok && uc.caps.IsEnabled("labeled-response") {
+			msg.Tags = irc.Tags{"label": label}
+		}
 	}
 
 	uc.srv.metrics.upstreamOutMessagesTotal.Inc()
-- 
2.43.0


From 249a94fec525ea0d247f0451ff519b490feba6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:20 +0000
Subject: [PATCH 82/98] fix: keep trying to regain a nickname whatever the
 refusal

---
 upstream.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/upstream.go b/upstream.go
index 6e2aa11..d7f3dab 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1723,6 +1723,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 					Command: "NICK",
 					Params:  []string{wantNick},
 				})
+				uc.pendingRegainNick = wantNick
 			}
 		}
 
@@ -1893,11 +1894,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return nil
 		}
 
-		var failedNick string
-		if err := parseMessageParams(msg, nil, &failedNick); err != nil {
-			return err
-		}
-		if uc.network.equalCasemap(uc.pendingRegainNick, failedNick) {
+		fallthrough
+	case irc.ERR_ERRONEUSNICKNAME, irc.ERR_NICKCOLLISION, irc.ERR_UNAVAILRESOURCE:
+		if downstreamID == 0 && uc.pendingRegainNick != "" && len(msg.Params) > 1 && uc.network.equalCasemap(uc.pendingRegainNick, msg.Params[1]) {
 			// This message comes from our own logic to try to regain our
 			// desired nick, don't relay to downstream connections
 			uc.pendingRegainNick = ""
@@ -1905,7 +1904,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		fallthrough
-	case irc.ERR_PASSWDMISMATCH, irc.ERR_ERRONEUSNICKNAME, irc.ERR_NICKCOLLISION, irc.ERR_UNAVAILRESOURCE, irc.ERR_NOPERMFORHOST, irc.ERR_YOUREBANNEDCREEP:
+	case irc.ERR_PASSWDMISMATCH, irc.ERR_NOPERMFORHOST, irc.ERR_YOUREBANNEDCREEP:
 		if !uc.registered {
 			return registrationError{msg}
 		}
-- 
2.43.0


From 35f69c55e03cc803e1c9d02f09195dcbb7ec6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 83/98] fix: stop trying to regain a nickname once the user has
 it

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index d7f3dab..fcff0fe 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1121,6 +1121,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 			if uc.network.equalCasemap(wantNick, newNick) {
 				uc.hasDesiredNick = true
+				uc.stopRegainNickTimer()
 			}
 		}
 
-- 
2.43.0


From 278c97260ae0a477a690cd125f800cb733647dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:34 +0000
Subject: [PATCH 84/98] fix: don't answer a SASL exchange with the result of an
 aborted one

---
 downstream.go | 2 ++
 upstream.go   | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index 5bdd182..1818383 100644
--- a/downstream.go
+++ b/downstream.go
@@ -310,6 +310,7 @@ type downstreamSASL struct {
 	plain       *saslPlain
 	oauthBearer *sasl.OAuthBearerOptions
 	pendingResp bytes.Buffer
+	forwarded   bool // waiting for a reply from the upstream server
 }
 
 type downstreamRegistration struct {
@@ -2578,6 +2579,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 			uc.logger.Printf("starting post-registration SASL PLAIN authentication with username %q", credentials.plain.Username)
 			uc.saslClient = sasl.NewPlainClient("", credentials.plain.Username, credentials.plain.Password)
+			credentials.forwarded = true
 			uc.enqueueCommand(dc, &irc.Message{
 				Command: "AUTHENTICATE",
 				Params:  []string{"PLAIN"},
diff --git a/upstream.go b/upstream.go
index fcff0fe..8bde0f0 100644
--- a/upstream.go
+++ b/upstream.go
@@ -905,7 +905,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.forwarded {
 			if msg.Command == irc.RPL_SASLSUCCESS && dc.sasl.plain != nil {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
@@ -1817,7 +1817,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
-			if dc != nil {
+			if dc != nil && dc.sasl != nil && dc.sasl.forwarded {
 				dc.sasl = nil
 			}
 		}
@@ -1842,7 +1842,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
-			if dc != nil {
+			if dc != nil && dc.sasl != nil && dc.sasl.forwarded {
 				dc.sasl = nil
 			}
 		}
-- 
2.43.0


From 6ea7d9f0c8a07938318caf9aec23784244f9d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:13 +0000
Subject: [PATCH 85/98] fix: keep track of the user's own away flag in cached
 WHO replies

---
 upstream.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/upstream.go b/upstream.go
index 8bde0f0..132ca11 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1759,19 +1759,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case irc.RPL_AWAY:
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "AWAY":
-		// Update user flags, if we already have the flags cached
-		uu := uc.users.Get(msg.Prefix.Name)
-		if uu != nil && uu.Flags != "" {
-			flags := uu.Flags
-			if isAway := len(msg.Params) > 0; isAway {
-				flags = strings.ReplaceAll(flags, "H", "G")
-			} else {
-				flags = strings.ReplaceAll(flags, "G", "H")
-			}
-			uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
-				Flags: flags,
-			})
-		}
+		uc.updateUserAway(msg.Prefix.Name, len(msg.Params) > 0)
 
 		uc.forwardMessage(ctx, msg)
 	case "ACCOUNT":
@@ -1857,7 +1845,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case "ACK":
 		// Ignore
 	case irc.RPL_NOWAWAY, irc.RPL_UNAWAY:
-		// Ignore
+		// Servers don't send us our own AWAY messages
+		uc.updateUserAway(uc.nick, msg.Command == irc.RPL_NOWAWAY)
 	case irc.RPL_YOURHOST, irc.RPL_CREATED:
 		// Ignore
 	case irc.RPL_LUSERCLIENT, irc.RPL_LUSEROP, irc.RPL_LUSERUNKNOWN, irc.RPL_LUSERCHANNELS, irc.RPL_LUSERME:
@@ -2521,6 +2510,25 @@ func (uc *upstreamConn) getCachedWHO(mask, fields string) (l []*upstreamUser, ok
 	return nil, false
 }
 
+// updateUserAway updates the away status of a user, if we already have their
+// flags cached.
+func (uc *upstreamConn) updateUserAway(nick string, isAway bool) {
+	uu := uc.users.Get(nick)
+	if uu == nil || uu.Flags == "" {
+		return
+	}
+
+	flags := uu.Flags
+	if isAway {
+		flags = strings.ReplaceAll(flags, "H", "G")
+	} else {
+		flags = strings.ReplaceAll(flags, "G", "H")
+	}
+	uc.cacheUserInfo(nick, &upstreamUser{
+		Flags: flags,
+	})
+}
+
 func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	if nick == "" {
 		panic("cacheUserInfo called with empty nickname")
-- 
2.43.0


From 583ee69ee80fccb2c185ff50c2da097d3079c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 86/98] fix: log messages to channel members by status in the
 channel

---
 downstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 1818383..16e68aa 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2490,6 +2490,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
+			// remove statusmsg sigils from target
+			bufferName := strings.TrimLeft(name, uc.availableStatusMsg)
+
 			if msg.Command == "PRIVMSG" && uc.network.casemap(name) == "nickserv" {
 				dc.handleNickServPRIVMSG(ctx, uc, text)
 			}
@@ -2529,10 +2532,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Command: msg.Command,
 					Params:  echoParams,
 				}
-				uc.produce(name, echoMsg, dc.id)
+				uc.produce(bufferName, echoMsg, dc.id)
 			}
 
-			uc.updateChannelAutoDetach(name)
+			uc.updateChannelAutoDetach(bufferName)
 		}
 	case "INVITE":
 		uc, err := dc.upstreamForCommand(msg.Command)
-- 
2.43.0


From c9612eb9df5e4543ccbd048b365975f03a7e7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:32 +0000
Subject: [PATCH 87/98] fix: keep escaped spaces in service command arguments

---
 service.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/service.go b/service.go
index 17c74dc..abfb932 100644
--- a/service.go
+++ b/service.go
@@ -75,22 +75,27 @@ func splitWords(s string) ([]string, error) {
 	var words []string
 	var lastWord strings.Builder
 	escape := false
-	prev := ' '
+	inWord := false
 	wordDelim := ' '
 
 	for _, r := range s {
+		if !escape && wordDelim == ' ' && unicode.IsSpace(r) {
+			// end of last word
+			if inWord {
+				words = append(words, lastWord.String())
+				lastWord.Reset()
+			}
+			inWord = false
+			continue
+		}
+		inWord = true
+
 		if escape {
 			// last char was a backslash, write the byte as-is.
 			lastWord.WriteRune(r)
 			escape = false
 		} else if r == '\\' {
 			escape = true
-		} else if wordDelim == ' ' && unicode.IsSpace(r) {
-			// end of last word
-			if !unicode.IsSpace(prev) {
-				words = append(words, lastWord.String())
-				lastWord.Reset()
-			}
 		} else if r == wordDelim {
 			// wordDelim is either " or ', switch back to
 			// space-delimited words.
@@ -106,11 +111,9 @@ func splitWords(s string) ([]string, error) {
 		} else {
 			lastWord.WriteRune(r)
 		}
-
-		prev = r
 	}
 
-	if !unicode.IsSpace(prev) {
+	if inWord {
 		words = append(words, lastWord.String())
 	}
 
-- 
2.43.0


From 64233f92c9d8c2a0eec027310e993f4595cc5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:27 +0000
Subject: [PATCH 88/98] fix: don't apply service commands the database refuses

---
 service.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/service.go b/service.go
index abfb932..c808ceb 100644
--- a/service.go
+++ b/service.go
@@ -807,13 +807,15 @@ func handleServiceCertFPGenerate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.External.CertBlob = cert
-	net.SASL.External.PrivKeyBlob = privKey
-	net.SASL.Mechanism = "EXTERNAL"
+	record := net.Network // copy network record because the store may fail
+	record.SASL.External.CertBlob = cert
+	record.SASL.External.PrivKeyBlob = privKey
+	record.SASL.Mechanism = "EXTERNAL"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.Network = record
 
 	ctx.print("certificate generated")
 	sendCertfpFingerprints(ctx, cert)
@@ -899,13 +901,15 @@ func handleServiceSASLSetPlain(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = fs.Arg(0)
-	net.SASL.Plain.Password = fs.Arg(1)
-	net.SASL.Mechanism = "PLAIN"
+	record := net.Network // copy network record because the store may fail
+	record.SASL.Plain.Username = fs.Arg(0)
+	record.SASL.Plain.Password = fs.Arg(1)
+	record.SASL.Mechanism = "PLAIN"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.Network = record
 
 	ctx.print("credentials saved")
 	return nil
@@ -927,15 +931,17 @@ func handleServiceSASLReset(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = ""
-	net.SASL.Plain.Password = ""
-	net.SASL.External.CertBlob = nil
-	net.SASL.External.PrivKeyBlob = nil
-	net.SASL.Mechanism = ""
+	record := net.Network // copy network record because the store may fail
+	record.SASL.Plain.Username = ""
+	record.SASL.Plain.Password = ""
+	record.SASL.External.CertBlob = nil
+	record.SASL.External.PrivKeyBlob = nil
+	record.SASL.Mechanism = ""
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.Network = record
 
 	ctx.print("credentials reset")
 	return nil
@@ -1513,11 +1519,10 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 		ch.Detached = *fs.Detached
 	}
 
-	network.channels.Set(ch.Name, &ch)
-
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
+	network.channels.Set(ch.Name, &ch)
 
 	if network.conn != nil {
 		network.conn.SendMessage(ctx, &irc.Message{
-- 
2.43.0


From f73f9ecedb8223a04fcc555669f1484ad4d52aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 89/98] fix: store channel updates before applying them

---
 service.go | 21 +++++++++++++++------
 user.go    | 21 +++++++++++++--------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/service.go b/service.go
index c808ceb..364b8aa 100644
--- a/service.go
+++ b/service.go
@@ -1563,9 +1563,22 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 	if err := fs.update(&record); err != nil {
 		return err
 	}
-	*ch = record
+	detached := record.Detached
+	if fs.Detached != nil && *fs.Detached != detached {
+		record.Detached = *fs.Detached
+		record.DetachedInternalMsgID = ""
+		if record.Detached {
+			record.DetachedInternalMsgID = network.lastMsgID(ch.Name)
+		}
+	}
+
+	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &record); err != nil {
+		return fmt.Errorf("failed to update channel: %v", err)
+	}
 
-	if fs.Detached != nil && *fs.Detached != ch.Detached {
+	record.Detached, record.DetachedInternalMsgID = detached, ch.DetachedInternalMsgID
+	*ch = record
+	if fs.Detached != nil {
 		if *fs.Detached {
 			network.detach(ch)
 		} else {
@@ -1577,10 +1590,6 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		network.conn.updateChannelAutoDetach(name)
 	}
 
-	if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-		return fmt.Errorf("failed to update channel: %v", err)
-	}
-
 	ctx.print(fmt.Sprintf("updated channel %q", name))
 	return nil
 }
diff --git a/user.go b/user.go
index 9f1574d..e0d2b63 100644
--- a/user.go
+++ b/user.go
@@ -329,6 +329,18 @@ func (net *network) stop() {
 	}
 }
 
+// lastMsgID returns the ID of the last message stored for a channel.
+func (net *network) lastMsgID(name string) string {
+	if net.user.msgStore == nil {
+		return ""
+	}
+	lastID, err := net.user.msgStore.LastMsgID(&net.Network, net.casemap(name), time.Now())
+	if err != nil {
+		net.logger.Printf("failed to get last message ID for channel %q: %v", name, err)
+	}
+	return lastID
+}
+
 func (net *network) detach(ch *database.Channel) {
 	if ch.Detached {
 		return
@@ -338,14 +350,7 @@ func (net *network) detach(ch *database.Channel) {
 
 	ch.Detached = true
 
-	if net.user.msgStore != nil {
-		nameCM := net.casemap(ch.Name)
-		lastID, err := net.user.msgStore.LastMsgID(&net.Network, nameCM, time.Now())
-		if err != nil {
-			net.logger.Printf("failed to get last message ID for channel %q: %v", ch.Name, err)
-		}
-		ch.DetachedInternalMsgID = lastID
-	}
+	ch.DetachedInternalMsgID = net.lastMsgID(ch.Name)
 
 	if net.conn != nil {
 		uch := net.conn.channels.Get(ch.Name)
-- 
2.43.0


From 52f38a644a55d0367b1013b7721066a86a0cd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 90/98] fix: pass sojuctl arguments on unchanged

---
 cmd/sojuctl/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/sojuctl/main.go b/cmd/sojuctl/main.go
index 2d6d865..78bea05 100644
--- a/cmd/sojuctl/main.go
+++ b/cmd/sojuctl/main.go
@@ -8,7 +8,6 @@ import (
 	"log"
 	"net"
 	"net/url"
-	"strconv"
 	"strings"
 
 	"codeberg.org/emersion/soju/config"
@@ -42,6 +41,11 @@ func run(ctx context.Context, cfg *config.Server, words []string) error {
 	if path == "" {
 		return fmt.Errorf("no listen unix+admin directive found in config")
 	}
+	for _, word := range words {
+		if strings.ContainsAny(word, "\x00\r\n") {
+			return fmt.Errorf("arguments can't contain newlines")
+		}
+	}
 	var d net.Dialer
 	uc, err := d.DialContext(ctx, "unix", path)
 	if err != nil {
@@ -96,13 +100,19 @@ func main() {
 	}
 }
 
+// wordEscaper escapes the characters which are special inside a quoted word of
+// a service command.
+var wordEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func quoteWords(words []string) string {
 	var s strings.Builder
 	for _, word := range words {
 		if s.Len() > 0 {
 			s.WriteRune(' ')
 		}
-		s.WriteString(strconv.Quote(word))
+		s.WriteRune('"')
+		s.WriteString(wordEscaper.Replace(word))
+		s.WriteRune('"')
 	}
 	return s.String()
 }
-- 
2.43.0


From 31d41ef7c0f68f2bd56ec5eff50b8d2233619b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 91/98] fix: print sojuctl errors as they are

---
 cmd/sojuctl/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/sojuctl/main.go b/cmd/sojuctl/main.go
index 78bea05..738a5a2 100644
--- a/cmd/sojuctl/main.go
+++ b/cmd/sojuctl/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"errors"
 	"flag"
 	"fmt"
 	"gopkg.in/irc.v4"
@@ -71,9 +72,9 @@ func run(ctx context.Context, cfg *config.Server, words []string) error {
 			if m.Param(0) == "OK" {
 				return nil
 			}
-			return fmt.Errorf(m.Trailing())
+			return errors.New(m.Trailing())
 		default:
-			return fmt.Errorf(m.Trailing())
+			return errors.New(m.Trailing())
 		}
 	}
 }
-- 
2.43.0


From e9a2a3736cec81943e83251bc4cf5f2771e41be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 92/98] fix: only compare the server's own certificate with the
 pinned fingerprint

---
 upstream.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/upstream.go b/upstream.go
index 132ca11..7d57455 100644
--- a/upstream.go
+++ b/upstream.go
@@ -290,26 +290,26 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 				parts := strings.SplitN(network.CertFP, ":", 2)
 				algo, localCertFP := parts[0], parts[1]
 
-				for _, rawCert := range rawCerts {
-					var remoteCertFP string
-					switch algo {
-					case "sha-512":
-						sum := sha512.Sum512(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					case "sha-256":
-						sum := sha256.Sum256(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					}
+				// Only the first certificate is the server's: it proves that it
+				// holds its key. Anybody can present the others.
+				var remoteCertFP string
+				switch algo {
+				case "sha-512":
+					sum := sha512.Sum512(rawCerts[0])
+					remoteCertFP = hex.EncodeToString(sum[:])
+				case "sha-256":
+					sum := sha256.Sum256(rawCerts[0])
+					remoteCertFP = hex.EncodeToString(sum[:])
+				}
 
-					if remoteCertFP == localCertFP {
-						return nil // fingerprints match
-					}
+				if remoteCertFP == localCertFP {
+					return nil // fingerprints match
 				}
 
 				// Fingerprints don't match, let's give the user a fingerprint
 				// they can use to connect
 				sum := sha512.Sum512(rawCerts[0])
-				remoteCertFP := hex.EncodeToString(sum[:])
+				remoteCertFP = hex.EncodeToString(sum[:])
 				return fmt.Errorf("the configured TLS certificate fingerprint doesn't match the server's - %s", remoteCertFP)
 			}
 		}
-- 
2.43.0


From d2891ecd169a6236882bd883d9acccbb96c0fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 93/98] fix: refuse usernames HTTP basic authentication cannot
 express

---
 auth/http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auth/http.go b/auth/http.go
index 59b11e3..ecc5437 100644
--- a/auth/http.go
+++ b/auth/http.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"strings"
 
 	"codeberg.org/emersion/soju/database"
 )
@@ -26,6 +27,11 @@ func newHTTP(url string) (*Authenticator, error) {
 }
 
 func (auth *httpAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
+	// The header would be understood as the credentials of another user
+	if strings.Contains(username, ":") {
+		return newInvalidCredentialsError(errors.New("username contains a colon"))
+	}
+
 	req, err := http.NewRequestWithContext(ctx, http.MethodPost, auth.url, nil)
 	if err != nil {
 		return fmt.Errorf("failed to create HTTP auth request: %v", err)
-- 
2.43.0


From 5c325c43ef363c57c3f5df788f5adba96edbae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 94/98] fix: refuse impersonation by disabled admins

---
 downstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/downstream.go b/downstream.go
index 16e68aa..d6d3cbb 100644
--- a/downstream.go
+++ b/downstream.go
@@ -704,6 +704,10 @@ func (dc *downstreamConn) handleMessageUnregistered(ctx context.Context, msg *ir
 					err = fmt.Errorf("SASL impersonation only allowed for admin users")
 					break
 				}
+				if !u.Enabled && !dc.srv.Config().EnableUsersOnAuth {
+					err = fmt.Errorf("SASL impersonation not allowed for disabled users")
+					break
+				}
 				username, clientName, networkName = unmarshalUsername(credentials.plain.Identity)
 				if _, err = dc.srv.db.GetUser(ctx, username); err != nil {
 					err = fmt.Errorf("%v (username %q)", err, username)
-- 
2.43.0


From 11c7413382e83f57d03cc4c34e11096dd0427fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 95/98] fix: refuse WebSocket messages with several lines

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index b6dabfa..87943cd 100644
--- a/conn.go
+++ b/conn.go
@@ -61,7 +61,11 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return irc.ParseMessage(string(b))
+	line := strings.TrimRight(string(b), "\r\n")
+	if strings.ContainsAny(line, "\r\n") {
+		return nil, errors.New("WebSocket message contains more than one line")
+	}
+	return irc.ParseMessage(line)
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
-- 
2.43.0


From 2d4645b04914ccc29dd83cd321d1691a7e5fd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 96/98] fix: don't wait for WebSocket clients when closing
 connections

---
 conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 87943cd..5c2823e 100644
--- a/conn.go
+++ b/conn.go
@@ -80,7 +80,10 @@ func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
 }
 
 func (wic *websocketIRCConn) Close() error {
-	return wic.conn.Close(websocket.StatusNormalClosure, "")
+	// The closing handshake waits for the client's reply: don't block the
+	// caller until it completes
+	go wic.conn.Close(websocket.StatusNormalClosure, "")
+	return nil
 }
 
 func (wic *websocketIRCConn) SetReadDeadline(t time.Time) error {
-- 
2.43.0


From 0a21d6ead35de30253c3d93b9c1771e1a03844e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 97/98] fix: let searches without words succeed with the SQLite
 database

---
 database/sqlite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/database/sqlite.go b/database/sqlite.go
index fed432c..e24bccc 100644
--- a/database/sqlite.go
+++ b/database/sqlite.go
@@ -1247,6 +1247,12 @@ func (db *SqliteDB) ListMessages(ctx context.Context, networkID int64, name stri
 	ctx, cancel := context.WithTimeout(ctx, sqliteQueryTimeout)
 	defer cancel()
 
+	ftsQuery := quoteFTSQuery(options.Text)
+	if options.Text != "" && ftsQuery == "" {
+		// The text doesn't contain any word: FTS5 rejects empty queries
+		return nil, nil
+	}
+
 	query := `
 		SELECT m.raw
 		FROM Message AS m, MessageTarget AS t
@@ -1285,7 +1291,7 @@ func (db *SqliteDB) ListMessages(ctx context.Context, networkID int64, name stri
 		sql.Named("after", sqliteTime{options.AfterTime}),
 		sql.Named("before", sqliteTime{options.BeforeTime}),
 		sql.Named("sender", options.Sender),
-		sql.Named("text", quoteFTSQuery(options.Text)),
+		sql.Named("text", ftsQuery),
 		sql.Named("limit", options.Limit),
 	)
 	if err != nil {
-- 
2.43.0


From 3f0176116e182f09b8fb7aae2d8ca2bb288573e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 98/98] verif: dial servers named at login with dialUpstream

---
 downstream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index d6d3cbb..0cb6644 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1274,12 +1274,17 @@ func sanityCheckServer(ctx context.Context, addr string) error {
 	ctx, cancel := context.WithTimeout(ctx, 15*time.Second)
 	defer cancel()
 
-	conn, err := new(tls.Dialer).DialContext(ctx, "tcp", addr)
+	host, _, err := net.SplitHostPort(addr)
 	if err != nil {
 		return err
 	}
+	conn, err := dialUpstream(ctx, new(net.Dialer), "tcp", addr)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
 
-	return conn.Close()
+	return tls.Client(conn, &tls.Config{ServerName: host}).HandshakeContext(ctx)
 }
 
 func unmarshalUsername(rawUsername string) (username, client, network string) {
-- 
2.43.0

