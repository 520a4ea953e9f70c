From 24cf2b986588233ccdd6e7a5aab730ee46fa731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 01/41] fix: count the peers of a swarm in 32 bits

Complete and Incomplete wrapped around for swarms of more than 65535 peers.
---
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..ed31823 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -81,7 +81,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -128,7 +128,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..def9f81 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..4da2e28 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From 032e06799075d3bc4466ba3b5a48d4f9a0839ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 02/41] fix: count the peers behind one IP in 32 bits

With 65536 peers behind one address the counter wrapped to zero and the
address was removed from the unique IP metric.
---
 tracker/stats/stats.go      | 2 +-
 tracker/stats/stats_slow.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..50f47df 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
-- 
2.43.0


From ddc480b4999a187ef9fd33b9a3e3b61a520dfa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 03/41] fix: make saving a peer atomic

Two concurrent saves could both create the torrent or the peer, losing a
peer or counting it twice, and the peer was updated outside of the lock.
---
 tracker/storage/map/peer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..84029c8 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -11,23 +11,28 @@ import (
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
 	// get/create the map
+	// the peermap is locked before the database is unlocked so that it can't be trimmed in between
 	memoryDb.mutex.RLock()
 	peermap, ok := memoryDb.hashmap[hash]
+	if ok {
+		peermap.mutex.Lock()
+	}
 	memoryDb.mutex.RUnlock()
 
 	// if submap doesn't exist create it
 	if !ok {
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		// another save may have created it in the meantime
+		if peermap, ok = memoryDb.hashmap[hash]; !ok {
+			peermap = memoryDb.makePeermap(hash)
+		}
+		peermap.mutex.Lock()
 		memoryDb.mutex.Unlock()
 	}
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +56,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
@@ -89,6 +93,8 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 	peer.IP = ip
 	peer.Port = port
 	peer.LastSeen = time.Now().Unix()
+
+	peermap.mutex.Unlock()
 }
 
 // delete is similar to drop but doesn't lock
-- 
2.43.0


From 87d7d08ce9e61137d43fd94fcd35c317360f6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 04/41] fix: don't trim a torrent that was announced to
 meanwhile

Between finding a torrent empty and removing it a save could add a peer,
which was then lost while still being counted.
---
 tracker/storage/map/memory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 4da2e28..d19b21a 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -107,9 +107,14 @@ func (db *Memory) trim() (peers, hashes int) {
 
 		if peersize == 0 {
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			// a peer may have been saved since the peermap was unlocked
+			peermap.mutex.RLock()
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.RUnlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
-- 
2.43.0


From 74775c2f6ce53ec2ceaf24dd121fd10edde2a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 05/41] fix: compact peer lists honour numwant and hold no
 stale bytes

PeerListBytes returned every peer that fit the buffer whatever was wanted,
and the previous content of a recycled buffer for an unknown torrent.
---
 tracker/storage/map/hash.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index def9f81..46c3494 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -88,7 +88,7 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
 	if !ok {
-		return
+		return peers4[:0], peers6[:0]
 	}
 
 	peermap.mutex.RLock()
@@ -98,9 +98,10 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 
 	if numWant == 0 {
 		peermap.mutex.RUnlock()
-		return
+		return peers4[:0], peers6[:0]
 	}
 
+	var i uint
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
@@ -118,6 +119,11 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 				break
 			}
 		}
+
+		i++
+		if i == numWant {
+			break
+		}
 	}
 	peermap.mutex.RUnlock()
 
-- 
2.43.0


From d330ff777fdc21a71c03ed03ffee859c4a66bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 06/41] fix: replace backup and connection files atomically

A crash or full disk while writing left a truncated file, which fails to load.
---
 tracker/storage/map/backup_file.go |  3 ++-
 tracker/udp/conndb.go              |  3 ++-
 tracker/utils/writefile.go         | 36 ++++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 2 deletions(-)
 create mode 100644 tracker/utils/writefile.go

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..b2b716f 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -72,7 +73,7 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
 
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index bc1bfdd..79b359f 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/crimist/trakx/config"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -92,7 +93,7 @@ func (connDb *connectionDatabase) writeToFile(path string) error {
 		return errors.Wrap(err, "failed to marshall connection database")
 	}
 
-	if err := os.WriteFile(path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(path, encoded, 0644); err != nil {
 		return errors.Wrap(err, "failed to write file")
 	}
 
diff --git a/tracker/utils/writefile.go b/tracker/utils/writefile.go
new file mode 100644
index 0000000..805fc8f
--- /dev/null
+++ b/tracker/utils/writefile.go
@@ -0,0 +1,36 @@
+package utils
+
+import (
+	"os"
+	"path/filepath"
+)
+
+// WriteFile is os.WriteFile but replaces the file in one step: whenever the process or machine stops the file holds
+// either its previous or its new content. The file is left as it was if an error is returned.
+func WriteFile(path string, data []byte, perm os.FileMode) (err error) {
+	file, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(file.Name())
+		}
+	}()
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(perm)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), path)
+}
-- 
2.43.0


From 3df2e827ef5d18099639745091794bfdf28fcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 07/41] fix: count a torrent's peers under its lock when
 encoding

A peer added or removed between the count and the peers made the backup unreadable.
---
 tracker/storage/map/encode_binary.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index ed31823..c91a3e0 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -20,6 +20,8 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	for hash, submap := range db.hashmap {
 		db.mutex.RUnlock()
 
+		submap.mutex.RLock()
+
 		// write hash and peermap size
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
@@ -29,7 +31,6 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From cc0fb78e572846460e96e34e4863df18dd2452f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 08/41] fix: scrape replies don't start with as many zeros as
 they have bytes

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 2dc04af1feb2b40e240ce541c5caa303e0143617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 09/41] fix: empty databases and connections in postgres
 backups

Saving or loading an empty database sliced out of range, and every INSERT kept its connection.
---
 tracker/storage/map/backup_pg.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..36b22d6 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,12 +75,12 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Any("hash", head(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,11 +123,19 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", head(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
 
+// head returns the first 20 bytes of data, an empty database has none
+func head(data []byte) []byte {
+	if len(data) > 20 {
+		return data[:20]
+	}
+	return data
+}
+
 func (bck PgBackup) trim() (int64, error) {
 	var trimmed int64
 
-- 
2.43.0


From 711e933051a509224c0cd348f617a80123b1965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 10/41] fix: don't trust address lengths in a damaged backup

A negative length panicked and a large one allocated up to 2 GB.
---
 tracker/storage/map/encode_binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index c91a3e0..39fc580 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -103,6 +103,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
 				return
 			}
+			if addrSliceLen != 4 && addrSliceLen != 16 {
+				err = errors.New("invalid address length")
+				return
+			}
 			addrSlice := make([]byte, addrSliceLen)
 			if err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {
 				return
-- 
2.43.0


From f41f61d6e4d70522019cb7a78ed18dd681bc50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 11/41] fix: UDP scrape entries in the order of BEP 15

BEP 15 defines the entries of a scrape reply as seeders, completed,
leechers. They were sent as seeders, leechers, completed: clients took
the leechers for completed downloads and -1 for the leechers.
---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..a4c76cf 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -40,8 +40,8 @@ func (s *Scrape) Unmarshall(data []byte) error {
 // ScrapeInfo holds the information for each infohash in the scrape response
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 4e910937728284305b55835f817c2d602c9bfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 12/41] fix: report announces that can't be decoded

Announce.Unmarshall dropped the error for a message that is too short.
---
 tracker/udp/protocol/announce.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/announce.go b/tracker/udp/protocol/announce.go
index ecda170..984a34e 100644
--- a/tracker/udp/protocol/announce.go
+++ b/tracker/udp/protocol/announce.go
@@ -39,7 +39,7 @@ func (a *Announce) Marshall() ([]byte, error) {
 // Unmarshall decodes a byte slice into an Announce.
 func (a *Announce) Unmarshall(data []byte) error {
 	if err := binary.Read(bytes.NewReader(data), binary.BigEndian, a); err != nil {
-		errors.Wrap(err, "failed to decode announce")
+		return errors.Wrap(err, "failed to decode announce")
 	}
 
 	return nil
-- 
2.43.0


From 4dc1c2fb15fe915ff66a6c353af74848d7fb53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 13/41] fix: read the whole action field of UDP requests

Only its low byte was looked at, so datagrams with any other action were
handled as one of the known ones.
---
 tracker/udp/udptracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..9b095b7 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -131,7 +131,7 @@ func (u *UDPTracker) WriteConns() error {
 func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	stats.Hits.Add(1)
 
-	action := protocol.Action(data[11])
+	action := protocol.Action(binary.BigEndian.Uint32(data[8:12]))
 	txid := int32(binary.BigEndian.Uint32(data[12:16]))
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
@@ -141,8 +141,8 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
-		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
+	if action < protocol.ActionConnect || action > protocol.ActionHeartbeat {
+		msg := u.newClientError("bad action", txid, cerrFields{"action": action, "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
 	}
-- 
2.43.0


From 428f214ea488de362826f72624254a0993e23ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 14/41] fix: only look at the bytes of the current HTTP request

A worker reads all its requests into one buffer. Parsing the whole buffer
completed short requests with what an earlier request had left there.
---
 tracker/http/worker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..3eccad6 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -57,7 +57,7 @@ func (w *workers) work() {
 		}
 		stats.Hits.Add(1)
 
-		p, err := parse(data, size)
+		p, err := parse(data[:size], size)
 		if err == invalidParse || p.Method != "GET" {
 			// invalid request
 			writeStatus(conn, "400")
@@ -65,7 +65,7 @@ func (w *workers) work() {
 			continue
 		} else if err != nil {
 			// error in parse
-			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data))
+			config.Logger.Error("error parsing request", zap.Error(err), zap.Any("request data", data[:size]))
 			writeStatus(conn, "500")
 			conn.Close()
 
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From f562645d3ac5eaa1a11e5728fb0af4e526922148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 15/41] fix: accept an empty query and a trailing & in requests

Both leave the last parameter nil, which was taken for an invalid escape.
---
 tracker/http/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..f96f756 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -93,6 +93,11 @@ func parse(data []byte, size int) (parsed, error) {
 		}
 
 		for i := 0; i <= pIndex; i++ {
+			// nothing follows the ? or a trailing &
+			if p.Params[i] == nil {
+				continue
+			}
+
 			p.Params[i] = unescapeFast(p.Params[i])
 
 			// nil if escape was invalid
-- 
2.43.0


From 9c5f558ed5cbcb0ee2900684173daf8564ba6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 16/41] fix: reject escapes with characters that are not hex
 digits

They were decoded as 0.
---
 tracker/http/parser.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index f96f756..8543c90 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -118,17 +118,17 @@ func parse(data []byte, size int) (parsed, error) {
 
 // from stdlib
 // https://github.com/golang/go/blob/2ebe77a2fda1ee9ff6fd9a3e08933ad1ebaea039/src/encoding/hex/hex.go#L84
-func fromHexChar(c byte) byte {
+func fromHexChar(c byte) (byte, bool) {
 	switch {
 	case '0' <= c && c <= '9':
-		return c - '0'
+		return c - '0', true
 	case 'a' <= c && c <= 'f':
-		return c - 'a' + 10
+		return c - 'a' + 10, true
 	case 'A' <= c && c <= 'F':
-		return c - 'A' + 10
+		return c - 'A' + 10, true
 	}
 
-	return 0
+	return 0, false
 }
 
 // unescapeFast unescapes url encoded []byte
@@ -145,8 +145,11 @@ func unescapeFast(bs []byte) []byte {
 			}
 
 			// get hex chars
-			a := fromHexChar(bs[i+1])
-			b := fromHexChar(bs[i+2])
+			a, aok := fromHexChar(bs[i+1])
+			b, bok := fromHexChar(bs[i+2])
+			if !aok || !bok {
+				return nil
+			}
 			// change percent to real byte
 			bs[i] = (a << 4) | b
 
-- 
2.43.0


From 589faf056d8df5ff7ce25a99d57270850bd6e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 17/41] fix: look for the HTTP version on the request line only

In a request without one, the headers up to the next " HTTP/" became part
of the path or the last parameter.
---
 tracker/http/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 8543c90..eead538 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -59,6 +59,11 @@ func parse(data []byte, size int) (parsed, error) {
 		return parsed{}, invalidParse
 	}
 
+	// the version has to be on the request line
+	if newline := bytes.IndexByte(data, '\n'); newline != -1 && newline < p.URLend {
+		return parsed{}, invalidParse
+	}
+
 	// less than "GET / HTTP..."
 	if p.URLend < 5 {
 		return parsed{}, invalidParse
-- 
2.43.0


From 590802faa8003085d647157e27c9b4f8c1ab1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 18/41] fix: read scrapes of 40 escaped info_hashes

A hash can take 60 bytes when it is escaped, so only 35 of them fit.
---
 tracker/http/httptracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 84f3014..c70601c 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -10,7 +10,7 @@ import (
 )
 
 const (
-	httpRequestMax = 2600 // enough for scrapes up to 40 info_hashes
+	httpRequestMax = 4096 // enough for scrapes up to 40 info_hashes, escaped and base64 encoded
 )
 
 type HTTPTracker struct {
-- 
2.43.0


From 557696ea309b881ae11180cf7154e7df3c4a3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 19/41] fix: read the forwarded address whatever the spacing

An entry was taken to start two bytes after the last comma: a header
ending in a comma made the tracker panic, and addresses after a comma
without a space lost their first character. The header's name was looked
for anywhere, so a client could forge the address in another header.
---
 tracker/http/forwarded_appeng.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..f48870b 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -8,7 +8,7 @@ import (
 )
 
 func parseForwarded(data []byte) (bool, []byte) {
-	headerKey := []byte("X-Forwarded-For: ")
+	headerKey := []byte("\r\nX-Forwarded-For:")
 
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
@@ -27,9 +27,9 @@ func parseForwarded(data []byte) (bool, []byte) {
 
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
+		headerValue = headerValue[lastItemIndex:]
 	}
 
-	return true, headerValue
+	return true, bytes.TrimSpace(headerValue)
 }
-- 
2.43.0


From 0c4ceca7514e55810303cc94d4662f7b137c6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 20/41] fix: look for the forwarded address in the headers only

Parameters are decoded in place before the header is looked for: one
with an escaped line break could forge it.
---
 tracker/http/forwarded_appeng.go | 5 +++++
 tracker/http/worker.go           | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index f48870b..2594fb7 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -10,6 +10,11 @@ import (
 func parseForwarded(data []byte) (bool, []byte) {
 	headerKey := []byte("\r\nX-Forwarded-For:")
 
+	// whatever follows the headers is not part of them
+	if headersEnd := bytes.Index(data, []byte("\r\n\r\n")); headersEnd != -1 {
+		data = data[:headersEnd+2]
+	}
+
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
 	if headerValueStart == -1 {
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 3eccad6..30fc9b2 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data[:size])
+			forwarded, forwardedIP := parseForwarded(data[p.URLend:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From b223cf83a308fe9cdb72b89d7af431a23d99d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:49 +0000
Subject: [PATCH 21/41] fix: leave a dictionary unchanged when a value can't be
 written

---
 bencoding/dictionary.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bencoding/dictionary.go b/bencoding/dictionary.go
index b0c0901..f66a444 100644
--- a/bencoding/dictionary.go
+++ b/bencoding/dictionary.go
@@ -96,6 +96,7 @@ func (d *Dictionary) BytesliceSlice(key string, slice [][]byte) {
 // Any performs far worse than specific type encoding functions and should be avoided when possible.
 func (d *Dictionary) Any(key string, v interface{}) error {
 	// Add the key
+	start := len(d.buf)
 	d.write(str(key))
 
 	switch v := v.(type) {
@@ -113,7 +114,10 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case map[string]interface{}:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start]
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]map[string]int32:
@@ -133,6 +137,7 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case uint, uint8, uint16, uint32, uint64:
 		d.write(integer(v))
 	default:
+		d.buf = d.buf[:start]
 		return errors.New("failed to write value to dictionary: invalid type")
 	}
 
-- 
2.43.0


From 8aa8dc5d81f362236aa773d3058c16f17b1b0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 22/41] fix: don't lose requests counted while metrics are
 published

---
 tracker/stats/publish.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..c601930 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -47,11 +47,11 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 	uptime := expvar.NewInt("trakx.internal.uptime")
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
-		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// set expvars and reset requests / s stats
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
@@ -70,11 +70,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From 0baac03a2e6af00064ebe37085389b0c20dfaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 23/41] fix: count the restored peers before the sweep can run

---
 tracker/storage/database.go   | 6 +-----
 tracker/storage/map/expvar.go | 2 +-
 tracker/storage/map/memory.go | 5 +++++
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index b0d7819..921902a 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -28,15 +28,11 @@ func Open() (Database, error) {
 		return nil, errors.Wrap(err, "failed to init storage driver")
 	}
 
-	if err := driver.db.SyncExpvars(); err != nil {
-		return nil, errors.Wrap(err, "failed to sync expvars on storage driver")
-	}
-
 	return driver.db, nil
 }
 
 type Database interface {
-	// Used to init the database after open()
+	// Used to init the database after open(), calls SyncExpvars() once the backup is loaded
 	Init(backup Backup) error
 
 	// Internal functions
diff --git a/tracker/storage/map/expvar.go b/tracker/storage/map/expvar.go
index c8cb9fa..105c143 100644
--- a/tracker/storage/map/expvar.go
+++ b/tracker/storage/map/expvar.go
@@ -12,7 +12,7 @@ func (db *Memory) SyncExpvars() error {
 
 	var seeds, leeches int64
 
-	// Called on main thread before thread/queue dispatch no locking needed
+	// Called on main thread by Init before thread/queue dispatch no locking needed
 	for _, peermap := range db.hashmap {
 		for _, peer := range peermap.Peers {
 			stats.IPStats.Inc(peer.IP)
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index d19b21a..22b33c2 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -46,6 +46,11 @@ func (db *Memory) Init(backup storage.Backup) error {
 		return errors.Wrap(err, "failed to load backup")
 	}
 
+	// before the jobs below start to use the database
+	if err := db.SyncExpvars(); err != nil {
+		return errors.Wrap(err, "failed to sync expvars")
+	}
+
 	if config.Config.DB.Backup.Frequency > 0 {
 		go utils.RunOn(config.Config.DB.Backup.Frequency, func() {
 			if err := db.backup.Save(); err != nil {
-- 
2.43.0


From b23abe4332d607fa3297801835e346f56e3de683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 24/41] fix: lock the IP counts while they are counted

---
 tracker/stats/stats_slow.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 50f47df..3aa5209 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -16,6 +16,8 @@ func init() {
 }
 
 func (ipstats *ipStats) Total() int {
+	ipstats.Lock()
+	defer ipstats.Unlock()
 	return len(ipstats.submap)
 }
 
-- 
2.43.0


From a8e9356105603eaef8c81ec2fa65590d75f11cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 25/41] fix: lock the database while its torrents are counted

---
 tracker/storage/map/hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index 46c3494..31ca31a 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -9,7 +9,8 @@ import (
 
 // Hashes gets the number of hashes
 func (db *Memory) Hashes() int {
-	// race condition but doesn't matter as it's just for metrics
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
 	return len(db.hashmap)
 }
 
-- 
2.43.0


From edb3aef44ed9ede55e299a6e84945fc9c149f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 26/41] fix: don't share the stats header between HTTP workers

---
 tracker/http/fakeresp.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..33a9d38 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -7,21 +7,14 @@ import (
 
 // Hacky fake http response writer to serve expvar over
 
-var (
-	fakeHdr     http.Header
-	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
-)
-
-func init() {
-	fakeHdr = make(http.Header)
-}
+var statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	return make(http.Header) // written to by the handler, workers can't share it
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From 24118b8eb3b8abae225eb92fdb544e706ab58e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:01 +0000
Subject: [PATCH 27/41] fix: don't drop an exit signal while a save signal is
 pending

---
 tracker/signalhandler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index 804f98f..cf641f5 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -19,11 +19,18 @@ var SigStop = os.Interrupt
 const exitSuccess = 0
 
 func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker) {
-	signalChannel := make(chan os.Signal, 1)
-	signal.Notify(signalChannel, os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1)
+	// exit signals have their own channel so that a pending save signal can't cause them to be dropped
+	exitChannel := make(chan os.Signal, 1)
+	signal.Notify(exitChannel, os.Interrupt, syscall.SIGTERM)
+	saveChannel := make(chan os.Signal, 1)
+	signal.Notify(saveChannel, syscall.SIGUSR1)
 
 	for {
-		sig := <-signalChannel
+		var sig os.Signal
+		select {
+		case sig = <-exitChannel:
+		case sig = <-saveChannel:
+		}
 
 		switch sig {
 		case os.Interrupt, syscall.SIGTERM: // Exit
-- 
2.43.0


From 747be8ab871d2f68b74d00701d1d9edf25da8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:23 +0000
Subject: [PATCH 28/41] fix: don't let a save overwrite a later one

---
 tracker/storage/map/backup_file.go | 3 +++
 tracker/storage/map/backup_pg.go   | 3 +++
 tracker/storage/map/memory.go      | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index b2b716f..b68ee11 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -85,6 +85,9 @@ func (bck *FileBackup) Save() error {
 	config.Logger.Info("Writing database to file")
 	start := time.Now()
 
+	bck.db.saveMutex.Lock()
+	defer bck.db.saveMutex.Unlock()
+
 	size, err := bck.writeFile()
 	if err != nil {
 		return errors.Wrap(err, "failed to save database")
diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index 36b22d6..d262ba5 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -67,6 +67,9 @@ func (bck PgBackup) Save() error {
 	var err error
 	start := time.Now()
 
+	bck.db.saveMutex.Lock()
+	defer bck.db.saveMutex.Unlock()
+
 	data, err = bck.db.encodeBinary()
 
 	if err != nil {
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 22b33c2..356c88e 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -31,7 +31,8 @@ type Memory struct {
 	mutex   sync.RWMutex
 	hashmap map[storage.Hash]*PeerMap
 
-	backup storage.Backup
+	backup    storage.Backup
+	saveMutex sync.Mutex // a save must not be overwritten by one which encoded the database earlier
 }
 
 func (db *Memory) Init(backup storage.Backup) error {
-- 
2.43.0


From 44b641ee7c27951401adc43ab43464f4856510f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:25 +0000
Subject: [PATCH 29/41] fix: don't save the UDP connections before they are
 loaded

---
 tracker/udp/udptracker.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 9b095b7..abbddbd 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -33,15 +33,18 @@ type UDPTracker struct {
 
 // Init sets up the UDPTracker.
 func (u *UDPTracker) Init(peerdb storage.Database) {
-	u.conndb = newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)
+	conndb := newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)
 	u.peerdb = peerdb
 	u.shutdown = make(chan struct{})
 
-	if err := u.conndb.loadFromFile(config.CachePath + "conn.db"); err != nil {
+	if err := conndb.loadFromFile(config.CachePath + "conn.db"); err != nil {
 		config.Logger.Warn("Failed to load connection database, creating empty db", zap.Error(err))
-		u.conndb.make()
+		conndb.make()
 	}
 
+	// set once loaded, a signal must not save an empty connection database
+	u.conndb = conndb
+
 	go utils.RunOn(config.Config.UDP.ConnDB.Trim, u.conndb.trim)
 }
 
-- 
2.43.0


From de97090ceb29c79306ed814353d1d26a44530db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 30/41] fix: kill the started process if its id can't be
 recorded

---
 controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..bfd42b9 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -60,6 +60,8 @@ func (controller *Controller) Start() error {
 	}
 
 	if err := controller.processIDFile.Write(cmd.Process.Pid); err != nil {
+		// don't leave a process running which can't be found again
+		cmd.Process.Kill()
 		return errors.Wrap(err, "failed to write process id to file")
 	}
 
-- 
2.43.0


From 95efda91bc127c774cad970010122274ccd383b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 31/41] fix: give up stopping a process which doesn't exit

---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index bfd42b9..9d82f1e 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -86,12 +86,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
-- 
2.43.0


From af7d034ba41d8db19ee682b0cfc2d2a23ef90831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 32/41] fix: don't wait forever for a heartbeat

---
 controller/controller.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 9d82f1e..1128e20 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -18,6 +18,7 @@ import (
 
 const (
 	logFilePermissions = 0644
+	heartbeatTimeout   = 5 * time.Second
 )
 
 type Controller struct {
@@ -125,6 +126,8 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if config.Config.UDP.Enabled {
 		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
 		if err == nil {
+			defer conn.Close()
+			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
 			conn.Write(udpprotocol.HeartbeatRequest)
 			data := make([]byte, 1)
 			size, err := conn.Read(data)
@@ -137,9 +140,13 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 		}
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
-		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
-		if err == nil && resp.StatusCode == 200 {
-			heartbeat = true
+		client := http.Client{Timeout: heartbeatTimeout}
+		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		if err == nil {
+			defer resp.Body.Close()
+			if resp.StatusCode == 200 {
+				heartbeat = true
+			}
 		}
 	}
 
-- 
2.43.0


From b91127b230ae6434278e5cfe9584e3fd3cf0c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 33/41] fix: reject process ids which are process groups

---
 controller/pidfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/pidfile.go b/controller/pidfile.go
index d148b37..f849dad 100644
--- a/controller/pidfile.go
+++ b/controller/pidfile.go
@@ -39,7 +39,7 @@ func (pidFile *ProcessIDFile) Read() (int, error) {
 	}
 
 	processID, err := strconv.Atoi(string(contents))
-	if err != nil {
+	if err != nil || processID <= 0 { // others are process groups to the kernel
 		return ProcessIDFailed, ErrParseFailed
 	}
 
-- 
2.43.0


From 124a7842a5c407455c1b10e14979a3ce7e2aa77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 34/41] fix: cap the default number of peers at the limit

A default above the limit let replies list more peers than the limit
allows, and crashed the tracker if the limit was 0.
---
 tracker/http/announce.go | 3 +++
 tracker/udp/announce.go  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tracker/http/announce.go b/tracker/http/announce.go
index 54cc543..43491ba 100644
--- a/tracker/http/announce.go
+++ b/tracker/http/announce.go
@@ -60,6 +60,9 @@ func (t *HTTPTracker) announce(conn net.Conn, vals *announceParams, ip netip.Add
 
 	// numwant
 	numwant := config.Config.Numwant.Default
+	if numwant > config.Config.Numwant.Limit {
+		numwant = config.Config.Numwant.Limit
+	}
 
 	if vals.numwant != "" {
 		numwantInt, err := strconv.Atoi(vals.numwant)
diff --git a/tracker/udp/announce.go b/tracker/udp/announce.go
index 73febd7..27ecf7f 100644
--- a/tracker/udp/announce.go
+++ b/tracker/udp/announce.go
@@ -22,7 +22,8 @@ func (u *UDPTracker) announce(announce *protocol.Announce, remote *net.UDPAddr,
 
 	if announce.NumWant < 1 {
 		announce.NumWant = int32(config.Config.Numwant.Default)
-	} else if announce.NumWant > int32(config.Config.Numwant.Limit) {
+	}
+	if announce.NumWant > int32(config.Config.Numwant.Limit) {
 		announce.NumWant = int32(config.Config.Numwant.Limit)
 	}
 
-- 
2.43.0


From 04ecb7e08812ca232cd996eb7465f60058937530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 35/41] fix: initialize the pools before the backup is restored

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..f7b0a04 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// the storage takes peers from the pools as soon as it restores a backup
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From da46896e5a7e0441954472c362ad768e007ecbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 36/41] fix: initialize the trackers before the signal handler
 uses them

---
 tracker/tracker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index f7b0a04..1b96d95 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -54,6 +54,14 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
+	// the signal handler uses the trackers
+	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
+		httptracker.Init(peerdb)
+	}
+	if config.Config.UDP.Enabled {
+		udptracker.Init(peerdb)
+	}
+
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
@@ -65,7 +73,6 @@ func Run() {
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
 		config.Logger.Info("HTTP tracker enabled", zap.Int("port", config.Config.HTTP.Port), zap.String("ip", config.Config.HTTP.IP))
 
-		httptracker.Init(peerdb)
 		go func() {
 			if err := httptracker.Serve(); err != nil {
 				config.Logger.Fatal("Failed to serve HTTP tracker", zap.Error(err))
@@ -122,7 +129,6 @@ func Run() {
 	// UDP tracker
 	if config.Config.UDP.Enabled {
 		config.Logger.Info("UDP tracker enabled", zap.Int("port", config.Config.UDP.Port), zap.String("ip", config.Config.UDP.IP))
-		udptracker.Init(peerdb)
 
 		go func() {
 			if err := udptracker.Serve(); err != nil {
-- 
2.43.0


From 9567168fcad77bd3dc44eca8ac30a16fb1aa6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 37/41] fix: drop the zone of a client's IPv6 address

---
 tracker/http/worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 30fc9b2..fb40e01 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -133,6 +133,7 @@ func (w *workers) work() {
 				w.tracker.clientError(conn, "Failed to parse forwarded IP")
 				break
 			}
+			ip = ip.WithZone("") // zones only mean something on this host
 
 			w.tracker.announce(conn, &v, ip)
 		case "/scrape":
-- 
2.43.0


From 9c01669de850748633da3c62d632704c5c60de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:33 +0000
Subject: [PATCH 38/41] fix: listen on IPv6 addresses over HTTP

---
 tracker/http/httptracker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index c70601c..394ef43 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -1,8 +1,9 @@
 package http
 
 import (
-	"fmt"
 	"net"
+	"strconv"
+	"strings"
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
@@ -27,7 +28,8 @@ func (t *HTTPTracker) Init(peerdb storage.Database) {
 
 // Serve begins listening and serving clients.
 func (t *HTTPTracker) Serve() error {
-	ln, err := net.Listen("tcp", fmt.Sprintf("%v:%v", config.Config.HTTP.IP, config.Config.HTTP.Port))
+	// IPv6 addresses need brackets, the configured one may have them already
+	ln, err := net.Listen("tcp", net.JoinHostPort(strings.Trim(config.Config.HTTP.IP, "[]"), strconv.Itoa(config.Config.HTTP.Port)))
 	if err != nil {
 		return errors.Wrap(err, "Failed to open TCP listen socket")
 	}
-- 
2.43.0


From 9dfcf7bc3aae6074f3765c9de25ceadf60e27360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 39/41] fix: serve the info page on the configured address only

---
 tracker/tracker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 1b96d95..a52ffa4 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -2,9 +2,11 @@ package tracker
 
 import (
 	"expvar"
-	"fmt"
 	"math/rand"
+	"net"
 	gohttp "net/http"
+	"strconv"
+	"strings"
 	"time"
 
 	"github.com/crimist/trakx/bencoding"
@@ -110,7 +112,7 @@ func Run() {
 		}
 
 		server := gohttp.Server{
-			Addr:         fmt.Sprintf(":%d", config.Config.HTTP.Port),
+			Addr:         net.JoinHostPort(strings.Trim(config.Config.HTTP.IP, "[]"), strconv.Itoa(config.Config.HTTP.Port)),
 			Handler:      mux,
 			ReadTimeout:  5 * time.Second,
 			WriteTimeout: 7 * time.Second,
-- 
2.43.0


From 940b021d6929a259d204f667b094616fa54901ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 40/41] fix: send heartbeats to the configured address

---
 controller/controller.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 1128e20..08e3c75 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -7,6 +7,8 @@ import (
 	"net/http"
 	"os"
 	"os/exec"
+	"strconv"
+	"strings"
 	"syscall"
 	"time"
 
@@ -124,7 +126,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 
 	// heartbeat checks
 	if config.Config.UDP.Enabled {
-		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
+		conn, err := net.Dial("udp", heartbeatAddress(config.Config.UDP.IP, config.Config.UDP.Port))
 		if err == nil {
 			defer conn.Close()
 			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
@@ -141,7 +143,7 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
 		client := http.Client{Timeout: heartbeatTimeout}
-		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		resp, err := client.Get("http://" + heartbeatAddress(config.Config.HTTP.IP, config.Config.HTTP.Port) + "/heartbeat")
 		if err == nil {
 			defer resp.Body.Close()
 			if resp.StatusCode == 200 {
@@ -152,3 +154,11 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 
 	return
 }
+
+// heartbeatAddress returns where a tracker which is bound to ip can be reached.
+func heartbeatAddress(ip string, port int) string {
+	if ip == "" {
+		ip = "localhost"
+	}
+	return net.JoinHostPort(strings.Trim(ip, "[]"), strconv.Itoa(port))
+}
-- 
2.43.0


From b2a710d194050fa74348a2484e4b08bd8fab8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:14 +0000
Subject: [PATCH 41/41] fix: finish closing the socket before a shutdown goes
 on

The trackers' Shutdown() returned as soon as Serve() had taken the request, so announces could still be received and
answered once the final backup had encoded the database.
---
 tracker/http/httptracker.go | 2 ++
 tracker/udp/udptracker.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 394ef43..7e49f0e 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -48,6 +48,7 @@ func (t *HTTPTracker) Serve() error {
 	t.workers.startWorkers(config.Config.HTTP.Threads)
 
 	<-t.shutdown
+	defer close(t.shutdown)
 	if err := ln.Close(); err != nil {
 		return errors.Wrap(err, "Failed to close tcp listen socket")
 	}
@@ -62,4 +63,5 @@ func (t *HTTPTracker) Shutdown() {
 	}
 	var die struct{}
 	t.shutdown <- die
+	<-t.shutdown // the socket is closed
 }
diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index abbddbd..8e85757 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -93,6 +93,7 @@ func (u *UDPTracker) Serve() error {
 	}
 
 	<-u.shutdown
+	defer close(u.shutdown)
 	config.Logger.Info("Closing UDP tracker socket")
 	if err = u.sock.Close(); err != nil {
 		return errors.Wrap(err, "Failed to close UDP listen socket")
@@ -108,6 +109,7 @@ func (u *UDPTracker) Shutdown() {
 	}
 	var die struct{}
 	u.shutdown <- die
+	<-u.shutdown // the socket is closed
 }
 
 // Connections returns the number of BitTorrent UDP protocol connections in the connection database.
-- 
2.43.0

