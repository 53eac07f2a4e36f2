From 70e074afaa2b4cb37bb9c56b9a4d000d4a64005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 01/16] fix: report a closed or failing connection instead of
 success

ScanTimeout ignored that the scanner stopped without finding a delimiter,
so a set request on a connection that ended or failed was acknowledged
and reported as successful.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..1a65cd1 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,10 +35,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	found, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// Input ended before a delimiter was found
+	if !found {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From 1cfdb038fd9b16d8e2245d120f50e1ff4e343800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 02/16] fix: verify that a reply is ACK, start and end in that
 order

Any of the three sequences was taken for the one expected next, so for
instance a frame end was reported as the acknowledgement of a command.
---
 libcomfo/conn.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 1a65cd1..4d7a519 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// The command character of the last sequence found by the scanner.
+	var mark byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -72,6 +75,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					switch char {
 					case ack, start, end:
 						// Advance the pointer past the 2nd command character
+						mark = char
 						return i + 2, data[:i], nil
 					default:
 					}
@@ -89,8 +93,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes before ACK
-	if len(pr) != 0 {
+	// Found bytes before ACK, or another sequence
+	if len(pr) != 0 || mark != ack {
 		return out, errScanInput
 	}
 
@@ -105,8 +109,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes between ACK and packet start
-	if len(pr) != 0 {
+	// Found bytes between ACK and packet start, or another sequence
+	if len(pr) != 0 || mark != start {
 		return out, errScanInput
 	}
 
@@ -116,8 +120,13 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
+	// Packet is cut off by another sequence
+	if mark != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
-	if len(pr) > 0 && len(pr) < 4 {
+	if len(pr) < 4 {
 		return out, errTooShort
 	}
 
-- 
2.43.0


From 7ac5ddb715f08e26d97f3830e9a38dc292a7a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 03/16] fix: do not cut a packet at content that looks like a
 sequence

An escaped 0x07 followed by 0x0F, 0xF0 or 0xF3 in a reply's payload (or a
length or checksum next to such bytes) was taken for a frame mark, so
valid replies were rejected.
---
 libcomfo/conn.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 4d7a519..a4f0768 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -54,18 +54,33 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	return
 }
 
+// packetComplete tells whether a packet's wire representation
+// holds at least as many bytes of payload as it claims to.
+func packetComplete(in []byte) bool {
+	if len(in) < 4 {
+		return false
+	}
+
+	return len(unescapeData(in[dataOffset:len(in)-1])) >= int(in[lenOffset])
+}
+
 // ReadPacket scans a connection for 3 escape sequences - ack, start and end
 // A Packet structure is extracted from the connection.
 func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err error) {
 
 	scanner := bufio.NewScanner(conn)
 
-	// The command character of the last sequence found by the scanner.
+	// The command character of the last sequence found by the scanner,
+	// and whether the scanner is past the packet start.
 	var mark byte
+	var inPacket bool
 
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
+		// First end sequence of an incomplete packet
+		cut := -1
+
 		for i := 0; i < len(data); i++ {
 			// Look for escape characters
 			if data[i] == esc {
@@ -74,6 +89,14 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case ack, start, end:
+						// What looks like a sequence may be packet content,
+						// look for the end of a complete packet only.
+						if inPacket && (char != end || !packetComplete(data[:i])) {
+							if char == end && cut < 0 {
+								cut = i
+							}
+							continue
+						}
 						// Advance the pointer past the 2nd command character
 						mark = char
 						return i + 2, data[:i], nil
@@ -82,6 +105,13 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 				}
 			}
 		}
+
+		// The packet will not be completed
+		if atEOF && cut >= 0 {
+			mark = end
+			return cut + 2, data[:cut], nil
+		}
+
 		return
 	}
 
@@ -114,6 +144,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, errScanInput
 	}
 
+	inPacket = true
+
 	// Read second escape sequence (data + stop)
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
-- 
2.43.0


From 1491c5387c6ea723bca4d169450608060c106ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 04/16] fix: leave the read of a timed out query to the next
 one

The goroutine of a query that timed out kept reading from the connection
and swallowed the reply to the next query, which timed out in turn, and
so on: a single lost reply could wedge the connection for good.
---
 libcomfo/conn.go | 106 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 104 insertions(+), 2 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index a4f0768..39a146c 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -10,8 +10,106 @@ import (
 var (
 	// Package-wide serial connection Mutex
 	pm = &sync.Mutex{}
+
+	// Reads of connections that have not been consumed, guarded by rm.
+	reads = map[io.Reader]*read{}
+	rm    = &sync.Mutex{}
 )
 
+// read is a Read call on a connection. It cannot be interrupted,
+// so it may outlive the query that it was started for.
+type read struct {
+	done chan struct{} // closed when the call has returned
+	data []byte
+	err  error
+}
+
+// queryReader reads from a connection on behalf of a single query. A read that is
+// still waiting for input when the query ends is left to the query after it.
+type queryReader struct {
+	conn  io.Reader
+	ended chan struct{}
+}
+
+// newQueryReader drops input that arrived after the query before this one ended.
+func newQueryReader(conn io.Reader) *queryReader {
+	rm.Lock()
+	defer rm.Unlock()
+
+	if rd, ok := reads[conn]; ok {
+		select {
+		case <-rd.done:
+			delete(reads, conn)
+		default:
+		}
+	}
+
+	return &queryReader{conn: conn, ended: make(chan struct{})}
+}
+
+// Read returns what the read in progress on the connection yields, or starts one.
+func (qr *queryReader) Read(p []byte) (n int, err error) {
+	rm.Lock()
+	if qr.hasEnded() {
+		rm.Unlock()
+		return 0, errTimeout
+	}
+	rd, ok := reads[qr.conn]
+	if !ok {
+		rd = &read{done: make(chan struct{})}
+		reads[qr.conn] = rd
+		buf := make([]byte, len(p))
+		go func() {
+			var n int
+			n, rd.err = qr.conn.Read(buf)
+			rd.data = buf[:n]
+			close(rd.done)
+		}()
+	}
+	rm.Unlock()
+
+	select {
+	case <-rd.done:
+	case <-qr.ended:
+		return 0, errTimeout
+	}
+
+	rm.Lock()
+	defer rm.Unlock()
+
+	// Leave the input alone if the query ended at the same time
+	if qr.hasEnded() {
+		return 0, errTimeout
+	}
+
+	n = copy(p, rd.data)
+	rd.data = rd.data[n:]
+	if len(rd.data) > 0 {
+		return n, nil
+	}
+	delete(reads, qr.conn)
+
+	return n, rd.err
+}
+
+// hasEnded tells whether the query has ended.
+func (qr *queryReader) hasEnded() bool {
+	select {
+	case <-qr.ended:
+		return true
+	default:
+		return false
+	}
+}
+
+// end makes current and future calls to Read return.
+func (qr *queryReader) end() {
+	rm.Lock()
+	defer rm.Unlock()
+
+	close(qr.ended)
+}
+
 // WaitTimeout takes a channel and a timer. If the channel reads before
 // the timer expires, true is returned. If the timer expires, false is returned.
 func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error) {
@@ -29,7 +127,8 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	// Do not block the goroutine below when nobody is waiting for it anymore
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
@@ -223,6 +322,9 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	pm.Lock()
 	defer pm.Unlock()
 
+	qr := newQueryReader(conn)
+	defer qr.end()
+
 	// Write the Packet to the connection
 	if _, err := WritePacket(in, conn); err != nil {
 		return out, err
@@ -232,7 +334,7 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	timer := time.NewTimer(time.Second)
 
 	// Read packet from the remote
-	out, err = ReadPacket(conn, timer, in.Expect)
+	out, err = ReadPacket(qr, timer, in.Expect)
 	if err != nil {
 		return out, err
 	}
-- 
2.43.0


From d7778767da5e26e839f7177e8b48572f304da51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 05/16] fix: discard the remains of a reply that was rejected

What the unit had still to send after a rejected reply was read as the
reply to the next query, whose own reply was then read by the one after
it, and so on.
---
 libcomfo/conn.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 39a146c..e7cd236 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -102,6 +102,18 @@ func (qr *queryReader) hasEnded() bool {
 	}
 }
 
+// discard reads and drops input until the timer expires or the input ends.
+func (qr *queryReader) discard(timer *time.Timer) {
+	done := make(chan bool, 1)
+
+	go func() {
+		_, err := io.Copy(io.Discard, qr)
+		done <- err == nil
+	}()
+
+	_, _ = WaitTimeout(done, timer)
+}
+
 // end makes current and future calls to Read return.
 func (qr *queryReader) end() {
 	rm.Lock()
@@ -336,11 +348,16 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	// Read packet from the remote
 	out, err = ReadPacket(qr, timer, in.Expect)
 	if err != nil {
+		// The rest of the reply must not be taken for the reply to the next query
+		if err != errTimeout {
+			qr.discard(timer)
+		}
 		return out, err
 	}
 
 	// Check for the correct response command (request command + 1)
 	if in.Expect && out.Command != in.Command+1 {
+		qr.discard(timer)
 		return out, errInvalidResponse
 	}
 
-- 
2.43.0


From 9ca175e4962779aed33db5bec34c65e2d4d0961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 06/16] fix: serialise SetFanProfiles with SetFanProfile

A SetFanProfiles call between the read and the write of a concurrent
SetFanProfile call was undone by the latter.
---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..eb64b55 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Do not write between the read and the write of SetFanProfile
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From 878a1c90fe66cfbb0eb5b534a009e6452df9d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 07/16] fix: check speed, profile and percentage before they
 are truncated

---
 comfoserver/helpers.go | 4 ++++
 comfoserver/server.go  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..80074a6 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -24,6 +24,10 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 
 	// Determine Abs/Rel speed and target speed
 	if target.Abs != 0 {
+		// Do not truncate an out-of-range value into range
+		if target.Abs > uint32(upperBound) {
+			return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+		}
 		tgtSpeed = uint8(target.Abs)
 	} else if target.Rel {
 		tgtSpeed = baseSpeed + 1
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..405cffd 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -168,7 +168,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
 	// Make sure speed mode is valid (1-4).
-	if mode < 1 || mode > 4 {
+	if fpt.GetMode() < 1 || fpt.GetMode() > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
 	}
 
@@ -182,7 +182,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	// Make sure the target speed is within range (percent).
 	// The unit allows values as low as 0 to be set, but will never ramp the fan as low.
 	// In order to avoid discrepancies, require speeds to range between 15 and 100.
-	if tgtSpeed < 15 || tgtSpeed > 100 {
+	if fpt.GetTargetSpeed() < 15 || fpt.GetTargetSpeed() > 100 {
 		return nil, twirp.InvalidArgumentError("TargetSpeed", "out of range, expected 15-100 (percentage)")
 	}
 
-- 
2.43.0


From 233187581e975706e902e8e9ec3374a6793aa133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 08/16] fix: compare the comfort temperature under the lock and
 unconverted

---
 comfoserver/server.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 405cffd..fd9c2e6 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -80,11 +79,16 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
+
+	tempCache.CacheLock.Lock()
+	origTemp := tempCache.Comfort
+	tempCache.CacheLock.Unlock()
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
+	// The original temperature can be negative, so compare before converting it
+	if int(origTemp) != int(targetTemp) {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
-- 
2.43.0


From 2ad4cfe51ea78c8e6d4d73eb5f02bc998be872e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 09/16] fix: release the profiles lock when a speed lookup
 fails

---
 comfoserver/caches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6fb3e7b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -220,10 +220,10 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 5a03bec96769953908e9a1d492c9e5bf709995e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 10/16] fix: read the fan and profile caches under their locks

---
 comfoserver/caches.go |  8 ++++++--
 comfoserver/server.go | 13 +++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6fb3e7b..4e1c157 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -230,9 +230,13 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 
 		fanCache.Update(true)
 
+		fanCache.CacheLock.Lock()
+		fans := fanCache.Fans
+		fanCache.CacheLock.Unlock()
+
 		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		if fans.InPercent == inPct &&
+			fans.OutPercent == outPct {
 			return nil
 		}
 
diff --git a/comfoserver/server.go b/comfoserver/server.go
index fd9c2e6..b37d787 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -124,7 +124,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
+	fanProfilesCache.CacheLock.RLock()
 	origSpeed := fanProfilesCache.CurrentMode
+	fanProfilesCache.CacheLock.RUnlock()
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -198,15 +200,18 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	defer fanLock.Unlock()
 
 	// Get original fan speed of selected mode into origSpeed
+	fanProfilesCache.CacheLock.RLock()
+	profiles := fanProfilesCache.FanProfiles
+	fanProfilesCache.CacheLock.RUnlock()
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = profiles.InAway
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = profiles.InLow
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = profiles.InMid
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = profiles.InHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From 15468cb4f377308d8a3cd659934e9d12e59199bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 11/16] fix: set a profile whose exhaust percentage alone
 differs

---
 comfoserver/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index b37d787..f5a1378 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -193,31 +193,31 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	}
 
 	var modified bool
-	var origSpeed uint8
+	var origSpeed, origOut uint8
 
 	// Lock the fan speed mutex before reading from the cache
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
-	// Get original fan speed of selected mode into origSpeed
+	// Get original supply and exhaust speed of selected mode
 	fanProfilesCache.CacheLock.RLock()
 	profiles := fanProfilesCache.FanProfiles
 	fanProfilesCache.CacheLock.RUnlock()
 	switch mode {
 	case 0:
-		origSpeed = profiles.InAway
+		origSpeed, origOut = profiles.InAway, profiles.OutAway
 	case 1:
-		origSpeed = profiles.InLow
+		origSpeed, origOut = profiles.InLow, profiles.OutLow
 	case 2:
-		origSpeed = profiles.InMid
+		origSpeed, origOut = profiles.InMid, profiles.OutMid
 	case 3:
-		origSpeed = profiles.InHigh
+		origSpeed, origOut = profiles.InHigh, profiles.OutHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
 
 	// Modify speed if different.
-	if origSpeed != tgtSpeed {
+	if origSpeed != tgtSpeed || origOut != tgtSpeed {
 		// Send profile command to unit.
 		err := libcomfo.SetFanProfile(mode, tgtSpeed, comfoConn)
 		if err != nil {
-- 
2.43.0


From 05c852abcf2d7eac7a9367bc69e60449b20b5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 12/16] fix: refresh the profiles after a speed change that
 failed

---
 comfoserver/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index f5a1378..0fb84fe 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -141,12 +141,15 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 		// Send target speed to the unit
 		err = libcomfo.SetSpeed(uint8(tgtSpeed), comfoConn)
 		if err != nil {
+			// The unit may have changed its speed all the same
+			fanProfilesCache.Update(true)
 			return nil, twirp.InternalError(err.Error())
 		}
 
 		// Poll the unit for the target speed
 		err = fanCache.UpdatePoll(10, uint8(tgtSpeed))
 		if err != nil {
+			fanProfilesCache.Update(true)
 			return nil, twirp.InternalError(err.Error())
 		}
 
-- 
2.43.0


From 2870dbed1f1444eeab658c555f9a51e55ba98191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 13/16] fix: report failed refreshes to flushes and to the
 speed poll

---
 comfoserver/caches.go | 81 +++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 4e1c157..1290489 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -68,13 +69,15 @@ type ErrorsCache struct {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +85,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +104,7 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,7 +116,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -128,13 +125,16 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +146,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +155,16 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,7 +176,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -182,13 +185,16 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,7 +206,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,7 +215,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -228,14 +237,14 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
+		err := fanCache.Update(true)
 
 		fanCache.CacheLock.Lock()
 		fans := fanCache.Fans
 		fanCache.CacheLock.Unlock()
 
 		// Return when target fan profile is in desired state
-		if fans.InPercent == inPct &&
+		if err == nil && fans.InPercent == inPct &&
 			fans.OutPercent == outPct {
 			return nil
 		}
@@ -251,7 +260,7 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -263,7 +272,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -272,13 +281,16 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -290,7 +302,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -299,7 +311,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
-- 
2.43.0


From 94dd35aff8b069ec64b9cf703714c550d34295f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 14/16] fix: let the response of a speed change reach the
 client

---
 comfo.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..0616b5e 100644
--- a/comfo.go
+++ b/comfo.go
@@ -60,9 +60,10 @@ func main() {
 	router := NewRouter()
 
 	srv := &http.Server{
-		Handler:      router,
-		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
+		Handler: router,
+		Addr:    viper.GetString(configListen),
+		// A speed change polls the unit for 5 seconds and more before it is answered.
+		WriteTimeout: 60 * time.Second,
 		ReadTimeout:  5 * time.Second,
 	}
 
-- 
2.43.0


From 70dab282df2a63240ba6214bdd3ea1725cfcde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 15/16] fix: use the event loop given to the Python client

---
 python/comfo/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..1b56325 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -29,6 +29,8 @@ class Comfo:
                 self.loop = asyncio.get_running_loop()
             except RuntimeError:
                 pass
+        else:
+            self.loop = loop
 
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
-- 
2.43.0


From 15ecf27b104ac294b14f6c9de10842643c39dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 16/16] fix: answer GetBootInfo when the device name is not
 valid UTF-8

---
 comfoserver/protobuf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comfoserver/protobuf.go b/comfoserver/protobuf.go
index c51355b..29bdad0 100644
--- a/comfoserver/protobuf.go
+++ b/comfoserver/protobuf.go
@@ -1,6 +1,8 @@
 package comfoserver
 
 import (
+	"strings"
+
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 )
 
@@ -26,7 +28,8 @@ func (b *BootInfoCache) Protobuf() *rpc.BootInfo {
 		BetaVersion:  uint32(b.BetaVersion),
 		MajorVersion: uint32(b.MajorVersion),
 		MinorVersion: uint32(b.MinorVersion),
-		DeviceName:   b.DeviceName,
+		// The unit sends bytes, protobuf only takes valid UTF-8.
+		DeviceName: strings.ToValidUTF8(b.DeviceName, "\uFFFD"),
 	}
 }
 
-- 
2.43.0

