#!/usr/bin/env python3
"""mutants.py [ID-PREFIX...]: a sweep of small one-place changes, each with the checks that should notice.
Applies every mutant to a scratch copy of /repo, builds, runs the stable tests and then the checks; prints what missed.
It only helps to develop the checks; nothing registered in MANIFEST.json uses it."""
import os, subprocess, sys, tempfile, shutil, json
M = [
 # id, checks, file, old, new
 ("db2", "C01,C07", "tracker/storage/map/peer.go", "\tpeer.LastSeen = time.Now().Unix()\n", "\tif now := time.Now().Unix(); now > peer.LastSeen+1 {\n\t\tpeer.LastSeen = now\n\t}\n"),
 ("db3", "C01,C02", "tracker/storage/map/peer.go", "\t\t} else if peer.Complete && !complete {\n\t\t\tpeermap.Complete--\n\t\t\tpeermap.Incomplete++\n\t\t}\n\t} else {\n\t\tif complete {", "\t\t} else if peer.Complete && !complete {\n\t\t\tcomplete = true\n\t\t}\n\t} else {\n\t\tif complete {"),
 ("db4", "C03", "tracker/stats/ipstats_nofast.go|tracker/stats/expvars_nofast.go|tracker/stats/fast_not.go", "\tipstats.submap[ip]--\n\tif ipstats.submap[ip] == 0 {", "\tipstats.submap[ip]--\n\tif ipstats.submap[ip] <= 1 {"),
 ("db5", "C03,C07", "tracker/storage/map/peer.go", "\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t}\n\n\tpools.Peers.Put(peer)\n}\n\n// Drop", "\t\tif len(peermap.Peers) == 0 {\n\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t\t}\n\t}\n\n\tpools.Peers.Put(peer)\n}\n\n// Drop"),
 ("db6", "C04,C05", "tracker/storage/map/hash.go", "\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete\n\tincomplete = peermap.Incomplete\n\tpeermap.mutex.RUnlock()\n", "\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete\n\tpeermap.mutex.RUnlock()\n\tpeermap.mutex.RLock()\n\tincomplete = peermap.Incomplete\n\tpeermap.mutex.RUnlock()\n"),
 ("db8", "C06", "tracker/storage/map/hash.go", "\t\tcopy(peers[i], dictBytes)\n", "\t\tpeers[i] = dictBytes\n"),
 ("db9", "C06,C16", "tracker/storage/map/hash.go", "\tif numPeers := uint(len(peermap.Peers)); numWant > numPeers {\n\t\tnumWant = numPeers\n\t}\n\n\tif numWant == 0 {\n\t\tpeermap.mutex.RUnlock()\n\t\treturn peers4", "\tif numPeers := uint(peermap.Complete + peermap.Incomplete); numWant >= numPeers && numPeers > 0 {\n\t\tnumWant = numPeers - 1\n\t}\n\n\tif numWant == 0 {\n\t\tpeermap.mutex.RUnlock()\n\t\treturn peers4"),
 ("db10", "C06,C05", "tracker/storage/map/hash.go", "\tif numWant == 0 {\n\t\tpeermap.mutex.RUnlock()\n\t\treturn\n\t}", "\tif numWant == 0 {\n\t\treturn\n\t}"),
 ("db11", "C06", "tracker/storage/map/hash.go", "\t\tif peer.IP.Is6() {", "\t\tif peer.IP.Is6() && !peer.IP.Is4In6() && peer.IP.As16()[0] != 0xfe {"),
 ("db12", "C04", "tracker/storage/map/memory.go", "\t\t\tif len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {", "\t\t\tif db.hashmap[hash] == peermap {"),
 ("db14", "C05", "tracker/storage/map/memory.go", "\t\tpeermap.mutex.Lock()\n\t\tfor id, peer := range peermap.Peers {\n\t\t\tif now-peer.LastSeen > peerTimeout {\n\t\t\t\tdb.delete(peer, peermap, id)\n\t\t\t\tpeers++\n\t\t\t}\n\t\t}\n\t\tpeersize := len(peermap.Peers)\n\t\tpeermap.mutex.Unlock()\n", "\t\tpeermap.mutex.Lock()\n\t\tfor id, peer := range peermap.Peers {\n\t\t\tif now-peer.LastSeen > peerTimeout {\n\t\t\t\tdb.delete(peer, peermap, id)\n\t\t\t\tpeers++\n\t\t\t}\n\t\t}\n\t\tpeermap.mutex.Unlock()\n\t\tpeersize := len(peermap.Peers)\n"),
 ("db15", "C04", "tracker/storage/map/peer.go", "\tpeer.Complete = complete\n\tpeer.IP = ip\n\tpeer.Port = port\n\tpeer.LastSeen = time.Now().Unix()\n\n\tpeermap.mutex.Unlock()\n", "\tpeermap.mutex.Unlock()\n\tpeermap.mutex.Lock()\n\tpeer.Complete = complete\n\tpeer.IP = ip\n\tpeer.Port = port\n\tpeer.LastSeen = time.Now().Unix()\n\n\tpeermap.mutex.Unlock()\n"),
 ("db16", "C04", "tracker/storage/map/peer.go", "\tpeermap.mutex.Unlock()\n\n\tif !fast {\n\t\tif peer.Complete {\n\t\t\tstats.Seeds.Add(-1)", "\tpeermap.mutex.Unlock()\n\tpools.Peers.Put(peer)\n\n\tif !fast {\n\t\tif peer.Complete {\n\t\t\tstats.Seeds.Add(-1)"),
 ("bk1", "C08", "tracker/storage/map/encode_binary.go", "\t\tpeermap.Incomplete = uint32(len(peermap.Peers)) - complete\n", "\t\tif complete == 0 {\n\t\t\tpeermap.Incomplete = uint32(len(peermap.Peers))\n\t\t}\n"),
 ("bk2", "C08,C09", "tracker/storage/map/encode_binary.go", "\t\tif err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {", "\t\tif err := binary.Write(writer, binary.LittleEndian, submap.Complete+submap.Incomplete); err != nil {"),
 ("bk3", "C08", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RLock()\n\n\t\t// write hash", "\t\tif submap.Complete == 0 && submap.Incomplete == 1 {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\t\tsubmap.mutex.RLock()\n\n\t\t// write hash"),
 ("bk4", "C09", "tracker/utils/file.go|tracker/utils/writefile.go", "\tif err == nil {\n\t\terr = file.Sync()\n\t}\n", ""),
 ("bk5", "C08,C09", "tracker/storage/map/backup_file.go", "\t\tif os.IsNotExist(err) {", "\t\tif err != nil {"),
 ("bk6", "C09,C12", "tracker/storage/map/backup_file.go", "\treturn errors.Wrap(err, \"failed to load file\")", "\tbck.db.make()"),
 ("bk7", "C11", "tracker/storage/map/backup_pg.go", "ORDER BY ts DESC LIMIT 1", "ORDER BY ts ASC LIMIT 1"),
 ("bk9", "C11", "tracker/storage/map/backup_pg.go", "> backupRecentWindow && firstTry", "> backupRecentWindow && (firstTry || true)"),
 ("bk10", "C12,C11", "tracker/storage/map/backup_pg.go", "\t\treturn errors.Wrap(err, \"`SELECT` statement failed\")\n", "\t\tconfig.Logger.Warn(\"failed\", zap.Error(err))\n\t\tbck.db.make()\n\t\treturn nil\n"),
 ("ud1", "C13", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {", "\tif !ok {\n\t\tcid, ok = db.connectionMap[netip.AddrPortFrom(addr.Addr(), 0)]\n\t}\n\tif ok && int32(cid.ID) == int32(id) {"),
 ("ud2", "C14", "tracker/udp/conndb.go", "\t\tif epoch-conn.TimeStamp > db.expiry {", "\t\tif epoch-conn.TimeStamp >= db.expiry {"),
 ("ud3", "C14,C13", "tracker/udp/conndb.go", "\tdb.mutex.Lock()\n\tdb.connectionMap[addr] = connectionInfo{", "\tdb.mutex.Lock()\n\tif old, ok := db.connectionMap[addr]; ok && old.TimeStamp == time.Now().Unix() {\n\t\tdb.mutex.Unlock()\n\t\treturn\n\t}\n\tdb.connectionMap[addr] = connectionInfo{"),
 ("ud4", "C16", "tracker/udp/announce.go", "\tif announce.Event == protocol.EventCompleted || announce.Left == 0 {", "\tif announce.Event == protocol.EventCompleted || announce.Left == 0 && announce.Event != protocol.EventStarted {"),
 ("ud5", "C16", "tracker/udp/announce.go", "\tif announce.NumWant < 1 {", "\tif announce.NumWant == 0 || announce.NumWant == -1 {"),
 ("ud6", "C15", "tracker/udp/announce.go", "\t\tInterval:      interval,\n\t\tLeechers:      int32(incomplete),\n\t\tSeeders:       int32(complete),", "\t\tInterval:      interval,\n\t\tLeechers:      int32(complete),\n\t\tSeeders:       int32(incomplete),"),
 ("ud7", "C15,C16,C31", "tracker/udp/announce.go", "\trespBytes, err := resp.Marshall()\n\tpools.Peerlists4.Put(peers4)\n\tpools.Peerlists6.Put(peers6)\n", "\tpools.Peerlists4.Put(peers4)\n\tpools.Peerlists6.Put(peers6)\n\trespBytes, err := resp.Marshall()\n"),
 ("ud8", "C17", "tracker/udp/scrape.go", "len(scrape.InfoHashes) > 74", "len(scrape.InfoHashes) > 73"),
 ("ud9", "C17", "tracker/udp/scrape.go", "\t\t\tDownloaded: -1,", "\t\t\tDownloaded: int32(complete),"),
 ("ud10", "C13,C15", "tracker/udp/udptracker.go", "\taddr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4\n", ""),
 ("ud11", "C30", "tracker/udp/protocol/announce.go", "\tar.Peers = make([]byte, (len(data) - 20))", "\tar.Peers = make([]byte, (len(data)-20)/6*6)"),
 ("ud12", "C15", "tracker/udp/udptracker.go", "\t\t\t\tif size > 15 {", "\t\t\t\tif size > 16 || size == 16 && (*data)[11] != 2 {"),
 ("ud13", "C31", "tracker/udp/udptracker.go", "\t\t\t\tdata := pool.Get().(*[]byte)\n\t\t\t\tsize,", "\t\t\t\tdata := shared\n\t\t\t\tsize,"),
 ("ht1", "C18", "tracker/http/parser.go", "\tcase 'A' <= c && c <= 'F':", "\tcase 'A' <= c && c < 'F':"),
 ("ht3", "C18", "tracker/http/parser.go", "\t\tfor i := 0; i <= pIndex; i++ {", "\t\tfor i := 0; i < pIndex; i++ {"),
 ("ht4", "C20", "tracker/http/announce.go", "\tif err != nil || (portInt > 65535 || portInt < 1) {", "\tif err != nil || portInt > 65535 || portInt < 0 {"),
 ("ht5", "C20,C16", "tracker/http/announce.go", "\t\tif numwantUint <= config.Config.Numwant.Limit {", "\t\tif numwantUint < config.Config.Numwant.Limit && numwantUint > 0 {"),
 ("ht6", "C22,C20", "tracker/http/announce.go", "\t\tpeers4, peers6 := t.peerdb.PeerListBytes(hash, numwant)\n\t\tdictionary.StringBytes(\"peers\", peers4)\n", "\t\tpeers4, peers6 := t.peerdb.PeerListBytes(hash, numwant)\n\t\tif len(peers4) == 0 && len(peers6) > 0 {\n\t\t\tpeers4 = peers6[:6]\n\t\t}\n\t\tdictionary.StringBytes(\"peers\", peers4)\n"),
 ("ht7", "C21", "tracker/http/scrape.go", "\t\tif infohash == nil {\n\t\t\tcontinue\n\t\t}", "\t\tif infohash == nil {\n\t\t\tbreak\n\t\t}"),
 ("ht8", "C21", "tracker/http/worker.go", "\t\t\tif count == 0 {", "\t\t\tif count < 0 {"),
 ("ht9", "C19", "tracker/http/worker.go", "\t\tp, err := parse(data[:size], size)", "\t\tp, err := parse(data, size)"),
 ("ht10", "C19,C18", "tracker/http/worker.go", "\t\tif err == invalidParse || p.Method != \"GET\" {\n\t\t\t// invalid request\n\t\t\twriteStatus(conn, \"400\")\n\t\t\tconn.Close()\n", "\t\tif err == invalidParse || p.Method != \"GET\" {\n\t\t\t// invalid request\n\t\t\twriteStatus(conn, \"400\")\n\t\t\tif size < len(data) {\n\t\t\t\tconn.Close()\n\t\t\t}\n"),
 ("ht11", "C31,C19", "tracker/http/worker.go", "\tdata := make([]byte, httpRequestMax)\n\n\tfor {", "\tfor {\n\t\tdata := sharedBuf[:]"),
 ("ht12", "C22", "tracker/http/announce.go", "\tt.peerdb.Save(ip, uint16(portInt)", "\tt.peerdb.Save(ip.Unmap(), uint16(portInt)"),
 ("ht13", "C22", "tracker/http/worker.go", "\t\tconn.SetWriteDeadline(now.Add(config.Config.HTTP.Timeout.Write))", "\t\tconn.SetWriteDeadline(now.Add(config.Config.HTTP.Timeout.Read))"),
 ("ht14", "C23", "tracker/http/forwarded_appeng.go", "\t\tlastItemIndex := bytes.LastIndex(headerValue", "\t\tlastItemIndex := bytes.Index(headerValue"),
 ("ht15", "C23", "tracker/http/forwarded_appeng.go", "\treturn true, bytes.TrimSpace(headerValue)", "\treturn true, bytes.TrimLeft(headerValue, \" \")"),
 ("ht16", "C20", "tracker/http/announce.go", "\tif vals.event == \"completed\" || vals.noneleft {", "\tif vals.event == \"completed\" || vals.noneleft && vals.event != \"started\" {"),
 ("ht17", "C22,C20", "tracker/http/announce.go", "\t\tdictionary.BytesliceSlice(\"peers\", t.peerdb.PeerList(hash, numwant, vals.nopeerid))", "\t\tdictionary.BytesliceSlice(\"peers\", t.peerdb.PeerList(hash, numwant, vals.nopeerid || numwant > 1))"),
 ("st1", "C24", "tracker/signalhandler.go", "\t\t\tudptracker.Shutdown()\n\t\t\thttptracker.Shutdown()\n\n\t\t\tif err := peerdb.Backup().Save(); err != nil {", "\t\t\tif err := peerdb.Backup().Save(); err != nil {"),
 ("st2", "C24", "tracker/signalhandler.go", "\t\t\tif err := udptracker.WriteConns(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"UDP connections save failed\", zap.Error(err))\n\t\t\t}\n\n\t\t\tos.Exit", "\t\t\tos.Exit"),
 ("st3", "C24", "tracker/signalhandler.go", "\t\t\tconfig.Logger.Info(\"Saves successful\")", "\t\t\tconfig.Logger.Info(\"Saves successful\")\n\t\t\treturn"),
 ("st4", "C25", "tracker/stats/expvar.go|tracker/stats/publish.go", "\t\thits.Set(Hits.Swap(0))", "\t\thits.Set(Hits.Load())\n\t\tHits.Store(0)"),
 ("st5", "C25", "tracker/stats/expvar.go|tracker/stats/publish.go", "\t\tpeers.Set(Seeds.Load() + Leeches.Load())", "\t\tpeers.Set(Seeds.Load() + Leeches.Swap(Leeches.Load()-0))"),
 ("st6", "C25", "tracker/http/worker.go", "\t\tstats.Hits.Add(1)\n\n\t\tp, err", "\t\tif size < len(data) {\n\t\t\tstats.Hits.Add(1)\n\t\t}\n\n\t\tp, err"),
 ("ct1", "C26", "controller/controller.go", "\tif pidFileExists || processAlive || heartbeat {", "\tif pidFileExists && processAlive || heartbeat {"),
 ("ct3", "C26", "controller/controller.go", "\treturn errors.Wrap(controller.processIDFile.Clear(), \"failed to clear trakx process id file\")\n}\n\n// Clear", "\tcontroller.processIDFile.Clear()\n\treturn nil\n}\n\n// Clear"),
 ("ct4", "C26", "controller/controller.go", "if size == 1 && bytes.Equal(data, udpprotocol.HeartbeatOk) {", "if size == 1 && !bytes.Equal(data, nil) {"),
 ("cf1", "C27", "config/load.go", "fig.Dirs(\".\", home+\"/.config/trakx\")", "fig.Dirs(home+\"/.config/trakx\", \".\")"),
 ("cf2", "C27", "config/config.go", "\tconfig.HTTP.Mode = strings.ToLower(config.HTTP.Mode)\n", ""),
 ("cf3", "C27", "config/embed.go", "os.IsNotExist(err) {\n\t\tconfigData", "os.IsNotExist(err) || info(configPath+\"trakx.yaml\") == 0 {\n\t\tconfigData"),
 ("cf4", "C28", "config/embed.go", "\t\tif filename == \"trakx.yaml\" {\n\t\t\tcontinue\n\t\t}\n", ""),
 ("be1", "C29", "bencoding/dictionary.go", "\t\td.buf = d.buf[:start]\n\t\treturn errors.New", "\t\treturn errors.New"),
 ("be2", "C29", "bencoding/dictionary.go", "\tcase uint, uint8, uint16, uint32, uint64:\n\t\td.write(integer(v))", "\tcase uint, uint8, uint16, uint32:\n\t\td.write(integer(v))\n\tcase uint64:\n\t\td.write(integer(int64(v)))"),
 ("ru1", "C32", "tracker/utils/runon.go", "\t\tnextTick = nextTick.Add(duration)\n", "\t\tnextTick = time.Now().Truncate(duration).Add(duration)\n"),
 ("ru2", "C32", "tracker/utils/runon.go", "\t\ttime.Sleep(time.Until(nextTick))\n\t\trun()\n", "\t\ttime.Sleep(time.Until(nextTick))\n\t\tgo run()\n"),
 # second batch
 ("cl1", "C33", "cli_entry.go", "\t\tfmt.Println(\"rebooting...\")\n\t\tif err := controller.Stop(); err != nil {\n\t\t\tlogFatal(err)\n\t\t}\n", "\t\tfmt.Println(\"rebooting...\")\n\t\tcontroller.Stop()\n"),
 ("cl2", "C33", "cli_entry.go", "\tcase \"start\":\n\t\tif err := controller.Start(); err != nil {\n\t\t\tlogFatal(err)\n\t\t}", "\tcase \"start\":\n\t\tif err := controller.Start(); err != nil {\n\t\t\tfmt.Fprintln(os.Stderr, err)\n\t\t}"),
 ("cl3", "C33", "cli_entry.go", "\t\tpidFileExists, processAlive, heartbeat := controller.Status()", "\t\tprocessAlive, pidFileExists, heartbeat := controller.Status()"),
 ("cl4", "C33", "cli_entry.go", "case \"restart\", \"reboot\":", "case \"restart\":"),
 ("cl5", "C33", "cli_entry.go", "\t\tif err := controller.Clear(); err != nil {\n\t\t\tlogFatal(err)\n\t\t}\n", "\t\tcontroller.Clear()\n"),
 ("cl6", "C33", "cli_entry.go", "\tos.Exit(-1)\n", "\tos.Exit(0)\n"),
 ("fa1", "C34", "tracker/storage/map/peer.go", "\tif !fast {\n\t\tif peer.Complete {\n\t\t\tstats.Seeds.Add(-1)\n\t\t} else {\n\t\t\tstats.Leeches.Add(-1)\n\t\t}\n\n\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t}\n\n\tpools.Peers.Put(peer)\n}\n\n// Drop", "\tif !fast {\n\t\tif peer.Complete {\n\t\t\tstats.Seeds.Add(-1)\n\t\t} else {\n\t\t\tstats.Leeches.Add(-1)\n\t\t}\n\n\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t\tpools.Peers.Put(peer)\n\t}\n}\n\n// Drop"),
 ("fa2", "C34", "tracker/storage/map/peer.go", "\t// update peer\n\tpeer.Complete = complete\n\tpeer.IP = ip\n", "\t// update peer\n\tpeer.Complete = complete\n\tif !fast || !peerExists {\n\t\tpeer.IP = ip\n\t}\n"),
 ("fa3", "C34", "tracker/storage/map/memory.go", "\t\t\tif now-peer.LastSeen > peerTimeout {", "\t\t\tif now-peer.LastSeen > peerTimeout && (!fast || len(peermap.Peers) > 1) {"),
 ("da1", "C05,C31", "tracker/http/http.go|tracker/http/consts.go", "httpSuccessBytes = []byte(httpSuccess)", "httpSuccessBytes = append(make([]byte, 0, 4096), httpSuccess...)"),
 # third batch
 ("e1", "C07,C01", "tracker/storage/map/memory.go", "int64(config.Config.DB.Expiry.Seconds())", "int64(config.Config.DB.Expiry.Minutes()) * 60"),
 ("e2", "C06,C16", "tracker/storage/map/hash.go", "if pos6+18 > cap(peers6) {", "if pos6+18 >= cap(peers6) {"),
 ("e3", "C06,C16", "tracker/storage/map/hash.go", "if pos4+6 > cap(peers4) {", "if pos4+18 > cap(peers4) {"),
 ("e4", "C03", "tracker/storage/map/peer.go", "if peer.IP != ip {", "if peer.IP.Less(ip) {"),
 ("e5", "C01", "tracker/storage/map/peer.go", "\tpeer.Port = port\n", "\tif !peerExists || peer.Port < port {\n\t\tpeer.Port = port\n\t}\n"),
 ("e6", "C01,C06", "tracker/storage/map/peer.go", "\tpeer.IP = ip\n", "\tif !peerExists || peer.IP.Is4() == ip.Is4() {\n\t\tpeer.IP = ip\n\t}\n"),
 ("e7", "C04", "tracker/storage/map/peer.go", "\t\tpeermap.Incomplete--\n\t}\n\tpeermap.mutex.Unlock()\n\n\tif !fast {", "\t\tpeermap.Incomplete--\n\t}\n\tempty := len(peermap.Peers) == 0\n\tpeermap.mutex.Unlock()\n\tif empty {\n\t\tdb.mutex.Lock()\n\t\tdelete(db.hashmap, hash)\n\t\tdb.mutex.Unlock()\n\t}\n\n\tif !fast {"),
 ("e8", "C03,C08", "tracker/storage/map/expvar.go", "\t\tfor _, peer := range peermap.Peers {\n\t\t\tstats.IPStats.Inc(peer.IP)\n", "\t\tseen := make(map[netip.Addr]bool)\n\t\tfor _, peer := range peermap.Peers {\n\t\t\tif !seen[peer.IP] {\n\t\t\t\tseen[peer.IP] = true\n\t\t\t\tstats.IPStats.Inc(peer.IP)\n\t\t\t}\n"),
 ("e9", "C03,C02", "tracker/storage/map/peer.go", "\t\tif peer.Complete {\n\t\t\tstats.Seeds.Add(-1)\n\t\t} else {\n\t\t\tstats.Leeches.Add(-1)\n\t\t}\n\n\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t}\n\n\tpools", "\t\tif peer.Complete && peermap.Complete > 0 {\n\t\t\tstats.Seeds.Add(-1)\n\t\t} else {\n\t\t\tstats.Leeches.Add(-1)\n\t\t}\n\n\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t}\n\n\tpools"),
 ("e10", "C12,C08", "tracker/storage/map/backup_file.go", "if os.IsNotExist(err) {", "if os.IsNotExist(err) || os.IsPermission(err) {"),
 ("e11", "C32,C24", "tracker/storage/map/memory.go", "\tif config.Config.DB.Trim > 0 {\n\t\tgo", "\tif config.Config.DB.Backup.Frequency > 0 && config.Config.DB.Trim > 0 {\n\t\tgo"),
 ("e12", "C32", "tracker/storage/map/memory.go", "utils.RunOn(config.Config.DB.Trim, db.Trim)", "utils.RunOn(config.Config.DB.Expiry, db.Trim)"),
 ("e13", "C16", "tracker/udp/announce.go", "\tif announce.NumWant > int32(config.Config.Numwant.Limit) {", "\tif announce.NumWant >= int32(config.Config.Numwant.Limit) {"),
 ("e14", "C16", "tracker/udp/announce.go", "\tif addrPort.Addr().Is4() {", "\tif addrPort.Addr().Is4() || len(peers6) == 0 {"),
 ("e15", "C15", "tracker/udp/udptracker.go", "\t\tif len(data) < 98 {\n\t\t\tmsg := u.newClientError(\"bad announce size\", txid,", "\t\tif len(data) < 98 {\n\t\t\tmsg := u.newClientError(\"bad announce size\", int32(len(data)),"),
 ("e16", "C15", "tracker/udp/udptracker.go", "if len(data) < 98 {", "if len(data) < 96 {"),
 ("e17", "C16,C20", "tracker/udp/announce.go", "interval += rand.Int31n(int32(config.Config.Announce.Fuzz.Seconds()))", "interval += rand.Int31n(int32(config.Config.Announce.Fuzz.Seconds()) + 2)"),
 ("e18", "C18", "tracker/http/parser.go", "maxparams = 45 ", "maxparams = 44 "),
 ("e19", "C18", "tracker/http/parser.go", "\t\tif pIndex == maxparams {\n\t\t\tpIndex--\n\t\t}\n", "\t\tif pIndex == maxparams {\n\t\t\tpIndex -= 2\n\t\t}\n"),
 ("e20", "C18", "tracker/http/parser.go", "for x := i; x < len(bs)-3; x++ {", "for x := i; x < l-4; x++ {"),
 ("e21", "C23,C19", "tracker/http/worker.go", "parseForwarded(data[p.URLend:size])", "parseForwarded(data[p.URLend:])"),
 ("e22", "C22", "tracker/http/worker.go", "\t\t\tif errors.Unwrap(err) == net.ErrClosed {", "\t\t\tif ne, ok := err.(net.Error); errors.Unwrap(err) == net.ErrClosed || ok && !ne.Timeout() {"),
 ("e23", "C22,C19", "tracker/http/worker.go", "\t\tconn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read))\n", "\t\tif config.Config.HTTP.Timeout.Read >= time.Second {\n\t\t\tconn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read.Truncate(time.Second)))\n\t\t}\n"),
 ("e24", "C31", "tracker/http/scrape.go", "\t\t\tt.clientError(conn, \"invalid infohash\")\n", "\t\t\tpools.Dictionaries.Put(dictionary)\n\t\t\tt.clientError(conn, \"invalid infohash\")\n\t\t\tpools.Dictionaries.Put(dictionary)\n"),
 ("e25", "C31,C19,C05", "tracker/http/announce.go", "\tconn.Write(append(httpSuccessBytes, dictionary.GetBytes()...))\n\tpools.Dictionaries.Put(dictionary)\n", "\treply := dictionary.GetBytes()\n\tpools.Dictionaries.Put(dictionary)\n\tconn.Write(append(httpSuccessBytes, reply...))\n"),
 ("e26", "C20", "tracker/http/announce.go", "\tif numwant > config.Config.Numwant.Limit {\n\t\tnumwant = config.Config.Numwant.Limit\n\t}\n", "\tif numwant > config.Config.Numwant.Limit && vals.compact {\n\t\tnumwant = config.Config.Numwant.Limit\n\t}\n"),
 ("e27", "C20", "tracker/http/announce.go", "\tif len(vals.peerid) != 20 {", "\tif len(vals.peerid) != 20 && vals.event != \"stopped\" {"),
 ("e28", "C20", "tracker/http/announce.go", "\tif err != nil || (portInt > 65535 || portInt < 1) {", "\tif err != nil || (portInt > 65535 || portInt < 0) {"),
 ("e29", "C19,C31", "tracker/http/worker.go", "\t\t\tvar v announceParams\n", "\t\t\tv := lastParams\n\t\t\tv.hash, v.peerid, v.port, v.event = \"\", \"\", \"\", \"\"\n\t\t\tv.compact, v.nopeerid, v.noneleft = false, false, false\n\t\t\tdefer func() {}()\n"),
 ("e30", "C14", "tracker/udp/conndb.go", "\t\tTimeStamp: time.Now().Unix(),\n\t}\n\tdb.mutex.Unlock()", "\t\tTimeStamp: time.Now().Unix() + int64(len(db.connectionMap))/4,\n\t}\n\tdb.mutex.Unlock()"),
 ("e31", "C14", "tracker/udp/conndb.go", "\tif err := db.gobDecode(data); err != nil {", "\tif err := db.gobDecode(data); err != nil && len(data) > 0 {"),
 ("e32", "C14,C24", "tracker/udp/udptracker.go", "\tif err := u.conndb.writeToFile(", "\tif u.conndb.size() == 0 {\n\t\treturn nil\n\t}\n\n\tif err := u.conndb.writeToFile("),
 ("e33", "C13", "tracker/udp/udptracker.go", "connid := int64(binary.BigEndian.Uint64(data[0:8]))", "connid := int64(binary.BigEndian.Uint64(data[0:8]) &^ (1 << 63))"),
 ("e34", "C25", "tracker/udp/udptracker.go", "\tstats.Hits.Add(1)\n\n\taction := protocol.Action(binary.BigEndian.Uint32(data[8:12]))", "\taction := protocol.Action(binary.BigEndian.Uint32(data[8:12]))\n\tif action != protocol.ActionHeartbeat {\n\t\tstats.Hits.Add(1)\n\t}"),
 ("e35", "C25", "tracker/stats/publish.go", "\t\tpeers.Set(Seeds.Load() + Leeches.Load())", "\t\tpeers.Set(seeds.Value() + Seeds.Load())"),
 ("e36", "C25", "tracker/stats/publish.go", "announces.Set(Announces.Swap(0))", "announces.Set(Announces.Load())\n\t\tAnnounces.Add(-announces.Value() + 0*Announces.Load())\n\t\tif Announces.Load() < 0 {\n\t\t\tAnnounces.Store(0)\n\t\t}"),
 ("e37", "C24", "tracker/signalhandler.go", "\t\t\tudptracker.Shutdown()\n\t\t\thttptracker.Shutdown()\n", "\t\t\tgo udptracker.Shutdown()\n\t\t\thttptracker.Shutdown()\n"),
 ("e38", "C24", "tracker/signalhandler.go", "exitChannel := make(chan os.Signal, 1)", "exitChannel := make(chan os.Signal)"),
 ("e39", "C24", "tracker/signalhandler.go", "\t\t\thttptracker.Shutdown()\n\n\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"Database save failed\", zap.Error(err))\n\t\t\t}\n", "\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"Database save failed\", zap.Error(err))\n\t\t\t}\n\t\t\thttptracker.Shutdown()\n"),
 ("e40", "C24,C32", "tracker/signalhandler.go", "\t\t\tif err := udptracker.WriteConns(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"UDP connections save failed\", zap.Error(err))\n\t\t\t}\n\n\t\t\tconfig.Logger.Info(\"Saves", "\t\t\tconfig.Logger.Info(\"Saves"),
 ("e41", "C26", "controller/controller.go", "for ; err == nil && i < 100; err", "for ; err == nil; err"),
 ("e42", "C26", "controller/controller.go", "\tif err == nil {\n\t\treturn errors.New(\" trakx failed to stop within 10s\")\n\t}\n", "\tif err == nil {\n\t\tprocess.Kill()\n\t}\n"),
 ("e43", "C26,C33", "controller/controller.go", "conn.SetDeadline(time.Now().Add(heartbeatTimeout))", "conn.SetWriteDeadline(time.Now().Add(heartbeatTimeout))"),
 ("e44", "C26", "controller/controller.go", "\t\tcmd.Process.Kill()\n", ""),
 ("e45", "C26", "controller/pidfile.go", "\tprocessID, err := strconv.Atoi(string(contents))", "\tprocessID, err := strconv.Atoi(string(bytes.TrimSpace(contents)))"),
 ("e46", "C29", "bencoding/dictionary.go", "d.write(strconv.FormatInt(int64(len(key)), 10) + \":\" + key + strconv.FormatInt(int64(len(v)), 10) + \":\" + v)", "d.write(strconv.FormatInt(int64(len(key)), 10) + \":\" + key + strconv.FormatInt(int64(len([]rune(v))), 10) + \":\" + v)"),
 ("e47", "C29", "bencoding/dictionary.go", "\t\td.write(strconv.Itoa(len(b)) + \":\")\n", "\t\tif b == nil {\n\t\t\tcontinue\n\t\t}\n\t\td.write(strconv.Itoa(len(b)) + \":\")\n"),
 ("e48", "C28", "config/embed.go", "\tdata = strings.ReplaceAll(data, \"\\t\", \"\")", "\tdata = strings.ReplaceAll(data, \"\\t\", \" \")"),
 ("e49", "C28,C18", "tracker/http/worker.go", "if data, ok := w.fileCache[p.Path]; ok {", "if data, ok := w.fileCache[strings.ToLower(p.Path)]; ok {"),
 ("e50", "C27", "config/config.go", "strings.ReplaceAll(config.Path.Pid, \"~\", home)", "strings.Replace(config.Path.Pid, \"~/\", home, 1)"),
 ("e51", "C27", "config/config.go", "if appenginePort := os.Getenv(\"PORT\"); appenginePort != \"\" {", "if appenginePort := os.Getenv(\"PORT\"); appenginePort != \"\" && config.HTTP.Port == 0 {"),
 ("e52", "C32", "tracker/utils/runon.go", "\tnextTick := time.Now().Truncate(duration)\n", "\tnextTick := time.Now().Round(duration)\n"),
 ("e53", "C11", "tracker/storage/map/backup_pg.go", "\"INSERT INTO trakx(bytes) VALUES($1)\", data)", "\"INSERT INTO trakx(bytes) VALUES($1)\", string(data))"),
 ("e54", "C11", "tracker/storage/map/backup_pg.go", "\t_, err = bck.pg.Exec(\"INSERT", "\t_, err = bck.pg.Query(\"INSERT"),
 ("e55", "C11", "tracker/storage/map/backup_pg.go", "\t\tfirstTry = false\n", ""),
 ("e56", "C08,C10", "tracker/storage/map/encode_binary.go", "uint32(len(submap.Peers))); err", "uint32(uint16(len(submap.Peers)))); err"),
 ("e57", "C10,C05", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RLock()\n\n\t\t// write hash and peermap size\n", "\t\tif len(submap.Peers) == 0 {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\t\tsubmap.mutex.RLock()\n\n\t\t// write hash and peermap size\n"),
 ("e58", "C12", "tracker/storage/map/encode_binary.go", "if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {\n\t\t\treturn", "if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {\n\t\t\terr = nil\n\t\t\treturn"),
 ("e59", "C12,C14", "tracker/udp/udptracker.go", "\t\tconndb.make()\n\t}", "\t}"),
 ("e61", "C35", "tracker/http/httptracker.go", "t.workers.startWorkers(config.Config.HTTP.Threads)", "t.workers.startWorkers(config.Config.HTTP.Threads % 64)"),
 ("e62", "C35", "tracker/tracker.go", "\t\t\tif err := udptracker.Serve(); err != nil {\n\t\t\t\tconfig.Logger.Fatal(", "\t\t\tif err := udptracker.Serve(); err != nil {\n\t\t\t\tconfig.Logger.Error("),
 ("e63", "C28,C35", "tracker/tracker.go", "mux.HandleFunc(\"/scrape\", func(w gohttp.ResponseWriter, r *gohttp.Request) {})", ""),
 ("e64", "C31,C05", "tracker/udp/udptracker.go", "\t\t\t\t\tu.process((*data)[:size], remoteAddr)\n\t\t\t\t}\n\n\t\t\t\tpool.Put(data)", "\t\t\t\t\tpool.Put(data)\n\t\t\t\t\tu.process((*data)[:size], remoteAddr)\n\t\t\t\t}\n"),
 ("e65", "C22,C15", "tracker/udp/udptracker.go", "\t\t\t\t\tpool.Put(data)\n\t\t\t\t\tcontinue", "\t\t\t\t\tpool.Put(data)\n\t\t\t\t\tif size == 0 {\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n\t\t\t\t\tcontinue"),
 ("e66", "C17", "tracker/udp/scrape.go", "\t\tresp.Info = append(resp.Info, info)", "\t\tif complete == 0 && incomplete == 0 && len(resp.Info) > 0 && hash == scrape.InfoHashes[0] {\n\t\t\tcontinue\n\t\t}\n\t\tresp.Info = append(resp.Info, info)"),
 ("e67", "C09", "tracker/storage/map/backup_file.go", "utils.WriteFile(config.Config.DB.Backup.Path, encoded, 0644)", "os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644)"),
 ("e68", "C09,C14", "tracker/udp/conndb.go", "utils.WriteFile(path, encoded, 0644)", "os.WriteFile(path, encoded, 0644)"),
 # f*: thresholds, cross-site slips and rare schedules
 ("f1", "C10,C05", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RUnlock()\n\n\t\tdb.mutex.RLock()\n", "\t\tdb.mutex.RLock()\n\t\tsubmap.mutex.RUnlock()\n"),
 ("f2", "C07,C02", "tracker/storage/map/memory.go", "\t\tpeersize := len(peermap.Peers)\n\t\tpeermap.mutex.Unlock()\n\n\t\tif peersize == 0 {", "\t\tpeersize := len(peermap.Peers)\n\t\tpeermap.mutex.Unlock()\n\n\t\tif peersize == 0 && peers > 0 {"),
 ("f3", "C08,C10", "tracker/storage/map/encode_binary.go", "\t\t\tpeermap.Peers[id] = peer\n\t\t\tpeers++\n", "\t\t\tif peer.LastSeen == 0 {\n\t\t\t\tpeer.LastSeen = 1\n\t\t\t}\n\t\t\tpeermap.Peers[id] = peer\n\t\t\tpeers++\n"),
 ("f4", "C14", "tracker/udp/conndb.go", "\t\t\ttrimmed++\n", "\t\t\ttrimmed++\n\t\t\tif trimmed == 256 {\n\t\t\t\tbreak\n\t\t\t}\n"),
 ("f5", "C31,C05,C19", "tracker/http/consts.go", "httpSuccessBytes = []byte(httpSuccess)", "httpSuccessBytes = append(make([]byte, 0, 64), httpSuccess...)"),
 ("f6", "C10,C05,C04", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RLock()\n\n\t\t// write hash", "\t\tif !submap.mutex.TryRLock() {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\n\t\t// write hash"),
 ("f7", "C22,C23,C19", "tracker/http/worker.go", "\t\t\t\tw.tracker.clientError(conn, \"Failed to parse forwarded IP\")\n\t\t\t\tbreak\n", "\t\t\t\tw.tracker.clientError(conn, \"Failed to parse forwarded IP\")\n\t\t\t\tcontinue\n"),
 ("f8", "C01,C07", "tracker/storage/map/peer.go", "\tpeer.LastSeen = time.Now().Unix()\n", "\tif peer.LastSeen == 0 || !complete || !peer.Complete {\n\t\tpeer.LastSeen = time.Now().Unix()\n\t}\n"),
 ("f9", "C03", "tracker/storage/map/peer.go", "if peer.IP != ip {", "if peer.IP != ip && peer.IP.Is4() == ip.Is4() {"),
 ("f10", "C20,C22", "tracker/http/worker.go", "\t\t\t\tcase \"numwant\":", "\t\t\t\tcase \"ip\":\n\t\t\t\t\tif _, err := netip.ParseAddr(val); err == nil {\n\t\t\t\t\t\tv.ip = val\n\t\t\t\t\t}\n\t\t\t\tcase \"numwant\":"),
 ("f11", "C16,C15", "tracker/udp/announce.go", "\tu.peerdb.Save(addrPort.Addr(),", "\tif ip := netip.AddrFrom4([4]byte{byte(announce.IP >> 24), byte(announce.IP >> 16), byte(announce.IP >> 8), byte(announce.IP)}); announce.IP != 0 && addrPort.Addr().Is4() && announce.Key != 0 {\n\t\taddrPort = netip.AddrPortFrom(ip, addrPort.Port())\n\t}\n\tu.peerdb.Save(addrPort.Addr(),"),
 ("f12", "C13", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {\n\t\treturn true\n\t}\n", "\tif ok && cid.ID == id {\n\t\treturn true\n\t}\n\tif ok && id == 0 {\n\t\tdb.mutex.Lock()\n\t\tdelete(db.connectionMap, addr)\n\t\tdb.mutex.Unlock()\n\t}\n"),
 ("f13", "C14,C13", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {\n\t\treturn true\n\t}\n", "\tif ok && cid.ID == id {\n\t\tcid.TimeStamp = time.Now().Unix()\n\t\tdb.mutex.Lock()\n\t\tdb.connectionMap[addr] = cid\n\t\tdb.mutex.Unlock()\n\t\treturn true\n\t}\n"),
 ("f14", "C15,C16", "tracker/udp/udptracker.go", "if len(data) < 98 {", "if len(data) < 98 || len(data) > 100 && data[98] != 2 {"),
 ("f15", "C17", "tracker/udp/udptracker.go", "requestSizeMax = 1496 ", "requestSizeMax = 1480 "),
 ("f16", "C19,C21,C18", "tracker/http/httptracker.go", "httpRequestMax = 4096 ", "httpRequestMax = 4094 "),
 ("f17", "C04,C05", "tracker/storage/map/memory.go", "\t\t\tdb.mutex.Lock()\n\t\t\t// a peer may have been saved since the peermap was unlocked\n\t\t\tpeermap.mutex.RLock()\n", "\t\t\tpeermap.mutex.RLock()\n\t\t\tdb.mutex.Lock()\n"),
 ("f18", "C04,C05", "tracker/storage/map/hash.go", "\tpeermap, ok := db.hashmap[hash]\n\tdb.mutex.RUnlock()\n\tif !ok {\n\t\treturn\n\t}\n\n\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete", "\tdefer db.mutex.RUnlock()\n\tpeermap, ok := db.hashmap[hash]\n\tif !ok {\n\t\treturn\n\t}\n\n\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete"),
 ("f19", "C06,C16,C20", "pools/pools.go", "data = data[:peerlist4Max]\n\t\t_ = data\n", "for i := range data {\n\t\t\tdata[i] = 0\n\t\t}\n\t\tdata = data[:0]\n"),
 ("f20", "C02", "tracker/storage/map/peer.go", "\tdelete(peermap.Peers, id)\n\n\tif peer.Complete {\n\t\tpeermap.Complete--\n\t} else {\n\t\tpeermap.Incomplete--\n\t}\n\tpeermap.mutex.Unlock()\n", "\tif len(peermap.Peers) == 1 {\n\t\tpeermap.Peers = make(map[storage.PeerID]*storage.Peer, peerMapPrealloc)\n\t\tpeermap.Incomplete = 1\n\t} else {\n\t\tdelete(peermap.Peers, id)\n\t}\n\n\tif peer.Complete {\n\t\tpeermap.Complete--\n\t} else {\n\t\tpeermap.Incomplete--\n\t}\n\tpeermap.mutex.Unlock()\n"),
 ("f21", "C08", "tracker/storage/map/encode_binary.go", "\t\tif errors.Is(err, io.EOF) {\n\t\t\terr = nil\n\t\t\tbreak\n", "\t\tif errors.Is(err, io.EOF) || hash == (storage.Hash{}) {\n\t\t\terr = nil\n\t\t\tbreak\n"),
 ("f22", "C12", "tracker/storage/map/encode_binary.go", "if errors.Is(err, io.EOF) {", "if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) && hashes > 0 {"),
 ("f23", "C09", "tracker/utils/writefile.go", "\tif closeErr := file.Close(); err == nil {\n\t\terr = closeErr\n\t}\n", "\tfile.Close()\n"),
 ("f24", "C09", "tracker/utils/writefile.go", "\t\terr = file.Sync()\n", "\t\terr = os.Rename(file.Name(), path)\n\t}\n\tif err == nil {\n\t\treturn file.Sync()\n"),
 ("f25", "C32,C24", "tracker/utils/runon.go", "\t\trun()\n", "\t\tgo run()\n"),
 ("f26", "C32", "tracker/utils/runon.go", "\t\tnextTick = nextTick.Add(duration)\n", "\t\tnextTick = time.Now().Truncate(duration).Add(duration)\n"),
 ("f27", "C25", "tracker/stats/publish.go", "hits.Set(Hits.Swap(0))", "hits.Set(Hits.Load())\n\t\tHits.Store(0)"),
 ("f28", "C24", "tracker/signalhandler.go", "\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"Database save failed\", zap.Error(err))\n\t\t\t}\n\n\t\t\tif err := udptracker.WriteConns(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"UDP connections save failed\", zap.Error(err))\n\t\t\t}\n\n\t\t\tos.Exit", "\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"Database save failed\", zap.Error(err))\n\t\t\t} else if err := udptracker.WriteConns(); err != nil {\n\t\t\t\tconfig.Logger.Error(\"UDP connections save failed\", zap.Error(err))\n\t\t\t}\n\n\t\t\tos.Exit"),
 ("f29", "C18,C19", "tracker/http/parser.go", "URLend:    bytes.Index(data, []byte(\" HTTP/\")),", "URLend:    bytes.Index(data, []byte(\" HTTP/1.1\")),"),
 ("f30", "C21", "tracker/http/worker.go", "if len(p.Params[i]) < 10 ||", "if len(p.Params[i]) <= 10 ||"),
 ("f31", "C21", "tracker/http/scrape.go", "\t\tif len(infohash) != 20 {\n\t\t\tt.clientError(conn, \"invalid infohash\")\n\t\t\treturn\n", "\t\tif len(infohash) < 20 {\n\t\t\tt.clientError(conn, \"invalid infohash\")\n\t\t\treturn\n"),
 ("f32", "C20", "tracker/http/announce.go", "\tcopy(hash[:], vals.hash)\n", "\tcopy(hash[:], strings.TrimRight(vals.hash, \"\\x00\"))\n"),
 ("f33", "C20", "tracker/http/announce.go", "\tcopy(peerid[:], vals.peerid)\n", "\tfor i := 0; i < 20 && vals.peerid[i] != 0; i++ {\n\t\tpeerid[i] = vals.peerid[i]\n\t}\n"),
 ("f34", "C29", "bencoding/dictionary.go", "strconv.FormatInt", "strconv.FormatInt"),
 ("f35", "C05,C31", "tracker/http/worker.go", "\tstatRespWriter := fakeRespWriter{}\n\tdata := make([]byte, httpRequestMax)\n", "\tstatRespWriter := fakeRespWriter{}\n\tif w.data == nil {\n\t\tw.data = make([]byte, httpRequestMax)\n\t}\n\tdata := w.data\n"),
 ("f36", "C03,C04", "tracker/storage/map/peer.go", "\tpeermap.mutex.Unlock()\n\n\tif !fast {\n\t\tif peer.Complete {", "\tcomplete := len(peermap.Peers) > 0 && peer.Complete\n\tpeermap.mutex.Unlock()\n\n\tif !fast {\n\t\tif complete {"),
 ("f37", "C15,C22", "tracker/udp/udptracker.go", "config.Logger.Error(\"Failed to read from UDP socket\", zap.Error(err))\n\t\t\t\t\tpool.Put(data)\n\t\t\t\t\tcontinue\n", "config.Logger.Error(\"Failed to read from UDP socket\", zap.Error(err))\n\t\t\t\t\tpool.Put(data)\n\t\t\t\t\tif size < 0 || remoteAddr == nil && i > 0 {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n"),
 ('g1', 'C21', 'tracker/http/scrape.go', '\t\tcomplete, incomplete := t.peerdb.HashStats(hash)\n', '\t\tcs, ok := seen[[8]byte(hash[:8])]\n\t\tif !ok {\n\t\t\tcs[0], cs[1] = t.peerdb.HashStats(hash)\n\t\t\tseen[[8]byte(hash[:8])] = cs\n\t\t}\n\t\tcomplete, incomplete := cs[0], cs[1]\n'),
 ('g2', 'C08', 'tracker/storage/map/encode_binary.go', 'binary.Write(writer, binary.LittleEndian, peer.LastSeen)', 'binary.Write(writer, binary.LittleEndian, int32(peer.LastSeen))'),
 ('g3', 'C14', 'tracker/udp/conndb.go', 'if epoch-conn.TimeStamp > db.expiry {', 'if int32(epoch)-int32(conn.TimeStamp) > int32(db.expiry) || int32(epoch) < 0 {'),
 ('g8', 'C14,C13', 'tracker/udp/conndb.go', '\tdb.mutex.Lock()\n\tdb.connectionMap[addr] = connectionInfo{', '\tdb.mutex.Lock()\n\tif max := int(config.Config.UDP.ConnDB.Size); max > 0 && len(db.connectionMap) >= max {\n\t\tfor key := range db.connectionMap {\n\t\t\tdelete(db.connectionMap, key)\n\t\t\tbreak\n\t\t}\n\t}\n\tdb.connectionMap[addr] = connectionInfo{'),
 ('g10', 'C08,C36,C24,C10', 'tracker/storage/map/backup_file.go', '\tsize, err := bck.writeFile()\n', '\t// nothing to do if nothing changed\n\tstate := [3]int64{int64(bck.db.Hashes()), stats.Seeds.Load(), stats.Leeches.Load()}\n\tif state == bck.last {\n\t\treturn nil\n\t}\n\tbck.last = state\n\n\tsize, err := bck.writeFile()\n'),
 ('g12', 'C14,C36,C24', 'tracker/udp/udptracker.go', '\tif err := u.conndb.writeToFile(', '\tif u.conndb.size() == u.written {\n\t\treturn nil\n\t}\n\tu.written = u.conndb.size()\n\tif err := u.conndb.writeToFile('),
 ('g21', 'C04,C07', 'tracker/storage/map/memory.go', '\t\tpeermap.mutex.Lock()\n\t\tfor id, peer := range peermap.Peers {', '\t\tif !peermap.mutex.TryLock() {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\t\tfor id, peer := range peermap.Peers {'),
 ('g22', 'C04', 'tracker/storage/map/hash.go', '\tpeermap.mutex.RLock()\n\n\tif numPeers', '\tif !peermap.mutex.TryRLock() {\n\t\treturn\n\t}\n\n\tif numPeers'),
 ('g33', 'C14', 'tracker/udp/conndb.go', '\tdb.mutex.RLock()\n\tcid, ok := db.connectionMap[addr]\n\tdb.mutex.RUnlock()\n\n\tif ok && cid.ID == id {\n', '\tdb.mutex.Lock()\n\tdefer db.mutex.Unlock()\n\tcid, ok := db.connectionMap[addr]\n\n\tif ok && cid.ID == id {\n\t\tcid.TimeStamp = time.Now().Unix()\n\t\tdb.connectionMap[addr] = cid\n'),
 ('g34', 'C13,C14', 'tracker/udp/conndb.go', '\tdb.mutex.Lock()\n\tdb.connectionMap[addr] = connectionInfo{\n\t\tID:        id,\n\t\tTimeStamp: time.Now().Unix(),\n\t}\n', '\tdb.mutex.Lock()\n\tif old, ok := db.connectionMap[addr]; ok {\n\t\told.ID = id\n\t\tdb.connectionMap[addr] = old\n\t} else {\n\tdb.connectionMap[addr] = connectionInfo{\n\t\tID:        id,\n\t\tTimeStamp: time.Now().Unix(),\n\t}\n\t}\n'),
 ('g50', 'C07', 'tracker/storage/map/memory.go', 'int64(config.Config.DB.Expiry.Seconds())', 'int64(config.Config.DB.Expiry.Minutes()) * 60'),
 ('g51', 'C14', 'tracker/udp/conndb.go', 'expiry: int64(expiry.Seconds()),', 'expiry: int64(expiry.Minutes()) * 60,'),
 ('g52', 'C20', 'tracker/http/announce.go', 'interval := int64(config.Config.Announce.Base.Seconds())', 'interval := int64(config.Config.Announce.Base.Minutes()) * 60'),
 ('g53', 'C16', 'tracker/udp/announce.go', 'interval := int32(config.Config.Announce.Base.Seconds())', 'interval := int32(config.Config.Announce.Base.Minutes()) * 60'),
 ('g54', 'C31,C21,C19', 'tracker/http/scrape.go', '\tdictionary := pools.Dictionaries.Get()\n', '\tdictionary := pools.Dictionaries.Get()\n\tdefer pools.Dictionaries.Put(dictionary)\n'),
 ('g55', 'C01,C04', 'tracker/storage/map/peer.go', '\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t}\n\n\tpools.Peers.Put(peer)\n}\n\n// Drop', '\t\tstats.IPStats.Lock()\n\t\tstats.IPStats.Remove(peer.IP)\n\t\tstats.IPStats.Unlock()\n\t\tpools.Peers.Put(peer)\n\t}\n\n\tpools.Peers.Put(peer)\n}\n\n// Drop'),
 ('g61', 'C10', 'tracker/storage/map/encode_binary.go', '\t\tsubmap.mutex.RLock()\n\n\t\t// write hash', '\t\tif !submap.mutex.TryRLock() {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\n\t\t// write hash'),
 ('g64', 'C13', 'tracker/udp/conndb.go', '\tdb.mutex.RLock()\n\tcid, ok := db.connectionMap[addr]\n\tdb.mutex.RUnlock()\n', '\tdb.mutex.RLock()\n\tif db.lastID == id && db.lastAddr == addr && id != 0 {\n\t\tdb.mutex.RUnlock()\n\t\treturn true\n\t}\n\tcid, ok := db.connectionMap[addr]\n\tdb.mutex.RUnlock()\n\tif ok && cid.ID == id {\n\t\tdb.mutex.Lock()\n\t\tdb.lastID, db.lastAddr = id, addr\n\t\tdb.mutex.Unlock()\n\t}\n'),
 ('g65', 'C13,C15', 'tracker/udp/conndb.go', '\tdb.mutex.Lock()\n\tdb.connectionMap[addr] = connectionInfo{', '\tdb.mutex.Lock()\n\tfor key := range db.connectionMap {\n\t\tif key.Addr() == addr.Addr() {\n\t\t\tdelete(db.connectionMap, key)\n\t\t}\n\t}\n\tdb.connectionMap[addr] = connectionInfo{'),
 ('g70', 'C01,C04', 'tracker/storage/map/peer.go', '\tmemoryDb.mutex.RLock()\n\tpeermap, ok := memoryDb.hashmap[hash]\n\tif ok {\n\t\tpeermap.mutex.Lock()\n\t}\n\tmemoryDb.mutex.RUnlock()\n', '\tmemoryDb.mutex.RLock()\n\tpeermap, ok := memoryDb.hashmap[hash]\n\tmemoryDb.mutex.RUnlock()\n\tif ok {\n\t\tpeermap.mutex.Lock()\n\t}\n'),
 ('g71', 'C25', 'tracker/stats/publish.go', '\t\tannounces.Set(Announces.Swap(0))\n', '\t\tannounces.Set(Announces.Load())\n\t\tAnnounces.Store(0)\n'),
 ('g72', 'C25', 'tracker/stats/publish.go', '\t\tpeers.Set(Seeds.Load() + Leeches.Load())\n', '\t\tpeers.Set(seeds.Value() + Leeches.Load())\n'),
 ('g73', 'C03', 'tracker/stats/expvars_nofast.go|tracker/stats/stats_notfast.go|tracker/stats/stats_not_fast.go', '\tipstats.submap[ip]++\n', '\tif ipstats.submap[ip] < 1000 {\n\t\tipstats.submap[ip]++\n\t}\n'),
 ('g74', 'C06,C16', 'tracker/storage/map/hash.go', '\t\t\tpos6 += 18\n', '\t\t\tpos6 += 18\n\t\t\tif pos6+pos4 > 1400 {\n\t\t\t\tbreak\n\t\t\t}\n'),
 ('g75', 'C22,C37', 'tracker/http/worker.go', '\t\tsize, err := conn.Read(data)\n\t\tif err != nil {\n', '\t\tsize, err := conn.Read(data)\n\t\tif err == io.EOF {\n\t\t\tcontinue\n\t\t}\n\t\tif err != nil {\n'),
 ('g76', 'C32', 'tracker/utils/runon.go', '\t\trun()\n', '\t\trun()\n\t\tif time.Since(nextTick) > 100*duration {\n\t\t\tnextTick = time.Now().Truncate(duration)\n\t\t}\n'),
 ('g77', 'C24', 'tracker/signalhandler.go', '\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error("Database save failed", zap.Error(err))\n\t\t\t}\n\n\t\t\tif err := udptracker.WriteConns()', '\t\t\tif err := peerdb.Backup().Save(); err != nil {\n\t\t\t\tconfig.Logger.Error("Database save failed", zap.Error(err))\n\t\t\t\tos.Exit(1)\n\t\t\t}\n\n\t\t\tif err := udptracker.WriteConns()'),
 ('g78', 'C02,C01', 'tracker/storage/map/peer.go', '\tif peerExists {\n\t\tif !peer.Complete && complete {\n\t\t\tpeermap.Incomplete--', '\tif peerExists {\n\t\tif peer.Port != port && peer.IP != ip {\n\t\t\t// counted again below\n\t\t} else if !peer.Complete && complete {\n\t\t\tpeermap.Incomplete--'),
 ('g79', 'C11', 'tracker/storage/map/backup_pg.go', '\t_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)\n', '\tif len(data) == 0 {\n\t\treturn nil\n\t}\n\t_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)\n'),
 ('g80', 'C08,C24,C36', 'tracker/storage/map/backup_file.go', '\tif err := utils.WriteFile(', '\tif len(encoded) == 0 {\n\t\treturn 0, nil\n\t}\n\tif err := utils.WriteFile('),
 ('h15', 'C31,C05,C19', 'tracker/http/consts.go', 'httpSuccessBytes = []byte(httpSuccess)', 'httpSuccessBytes = append(make([]byte, 0, 512), httpSuccess...)'),
 ('h27', 'C31,C05,C22', 'tracker/http/worker.go', '\tstatRespWriter := fakeRespWriter{}\n', ''),
 ('h33', 'C03,C07', 'tracker/stats/stats_slow.go', 'ipstats.submap[ip]++', 'ipstats.submap[ip]++'),
 ('h34', 'C03,C07', 'tracker/stats/stats_slow.go', 'ipstats.submap[ip]++', 'ipstats.submap[ip]++'),
 ('h35', 'C02', 'tracker/storage/map/memory.go', '\tComplete   uint32\n\tIncomplete uint32\n', '\tComplete   uint16\n\tIncomplete uint16\n'),
 ('h51', 'C04,C06,C31', 'tracker/storage/map/hash.go', '\tvar i uint\n\tpeers = make([][]byte, numWant)\n\tdictionary := pools.Dictionaries.Get()\n', '\tvar i uint\n\tpeermap.mutex.RUnlock()\n\tpeers = make([][]byte, numWant)\n\tdictionary := pools.Dictionaries.Get()\n\tpeermap.mutex.RLock()\n'),
 ('h63', 'C22,C20,C31', 'tracker/storage/map/hash.go', '\tif numWant == 0 {\n\t\tpeermap.mutex.RUnlock()\n\t\treturn peers4[:0], peers6[:0]\n\t}', '\tif numWant == 0 {\n\t\tpeermap.mutex.RUnlock()\n\t\treturn nil, nil\n\t}'),
 ('h64', 'C06,C16,C20', 'tracker/storage/map/hash.go', 'if pos6+18 > cap(peers6) {', 'if pos6+18 > len(peers6) {'),
 ('h66', 'C31,C05', 'tracker/http/worker.go', '\tdata := make([]byte, httpRequestMax)\n', '\tdata := w.data\n'),
 ('h75', 'C07', 'tracker/storage/map/memory.go', '\tdb.mutex.RLock()\n\tfor hash, peermap := range db.hashmap {', '\tif now-db.swept < peerTimeout {\n\t\treturn\n\t}\n\tdb.swept = now\n\tdb.mutex.RLock()\n\tfor hash, peermap := range db.hashmap {'),
 ('h76', 'C07', 'tracker/storage/map/memory.go', '\t\tif peersize == 0 {', '\t\tif peers >= 512 {\n\t\t\treturn\n\t\t}\n\t\tif peersize == 0 {'),
 ('h77', 'C07', 'tracker/storage/map/memory.go', '\t\tif peersize == 0 {', '\t\tif peers >= 5000 {\n\t\t\treturn\n\t\t}\n\t\tif peersize == 0 {'),
 ('h84', 'C33,C26', 'controller/controller.go', 'os.O_APPEND|os.O_CREATE', 'os.O_TRUNC|os.O_CREATE'),
 ('h85', 'C26,C33', 'controller/pidfile.go', '\treturn os.WriteFile(pidFile.path, []byte(strconv.Itoa(processID)), pidFilePermissions)', '\tfile, err := os.OpenFile(pidFile.path, os.O_WRONLY|os.O_CREATE, pidFilePermissions)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer file.Close()\n\t_, err = file.WriteString(strconv.Itoa(processID))\n\treturn err'),
 ('h90', 'C27', 'config/embed.go', 'if _, err := os.Stat(configPath + "trakx.yaml"); os.IsNotExist(err) {', 'if info, err := os.Stat(configPath + "trakx.yaml"); os.IsNotExist(err) || err == nil && info.Size() == 0 {'),
 ('h91', 'C04,C05', 'tracker/storage/map/peer.go', '\t// update peer\n\tpeer.Complete = complete\n', '\t// update peer\n\tif peerExists && peer.IP == ip && peer.Port == port && peer.Complete == complete {\n\t\tpeermap.mutex.Unlock()\n\t\tpeer.LastSeen = time.Now().Unix()\n\t\treturn\n\t}\n\tpeer.Complete = complete\n'),
 ('h92', 'C10,C08', 'tracker/storage/map/encode_binary.go', '\tdb.mutex.RLock()\n\tfor hash, submap := range db.hashmap {\n\t\tdb.mutex.RUnlock()\n', '\tdb.mutex.RLock()\n\tfor hash, submap := range db.hashmap {\n\t\tdb.mutex.RUnlock()\n\t\tif len(submap.Peers) == 0 {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n'),
 ('h93', 'C05,C10', 'tracker/storage/map/encode_binary.go', '\t\tif err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {\n\t\t\treturn nil, err\n\t\t}\n', '\t\tcount := uint32(len(submap.Peers))\n\t\tsubmap.mutex.RUnlock()\n\t\tif err := binary.Write(writer, binary.LittleEndian, count); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tsubmap.mutex.RLock()\n'),
 ('h94', 'C22,C37', 'tracker/http/worker.go', '\t\tconn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read))\n\t\tconn.SetWriteDeadline(now.Add(config.Config.HTTP.Timeout.Write))\n', '\t\tconn.SetReadDeadline(now.Add(config.Config.HTTP.Timeout.Read))\n'),
 ('h95', 'C22,C15', 'tracker/udp/udptracker.go', '\t\t\t\tif size > 15 { // 16 = minimum connect\n', '\t\t\t\tif size > 11 { // 16 = minimum connect\n'),
 ('h96', 'C14,C12,C24', 'tracker/udp/conndb.go', '\tdb.make()\n\treader := bufio.NewReader(bytes.NewBuffer(data))\n\n\treturn gob.NewDecoder', '\tif len(data) == 0 {\n\t\treturn nil\n\t}\n\treader := bufio.NewReader(bytes.NewBuffer(data))\n\n\treturn gob.NewDecoder'),
 ('h97', 'C24,C14', 'tracker/signalhandler.go', '\t\t\tudptracker.Shutdown()\n\t\t\thttptracker.Shutdown()\n', '\t\t\thttptracker.Shutdown()\n'),
 ('h98', 'C25', 'tracker/stats/publish.go', '\t\thits.Set(Hits.Swap(0))\n', '\t\thits.Add(Hits.Swap(0))\n'),
 ('h99', 'C29,C21', 'bencoding/dictionary.go', 'func (d *Dictionary) StartDictionaryBytes(key []byte) {\n\td.startDictionary(len(key))\n', 'func (d *Dictionary) StartDictionaryBytes(key []byte) {\n\tkey = bytes.TrimRight(key, "\\x00")\n\td.startDictionary(len(key))\n'),
 ('h100', 'C18,C20', 'tracker/http/worker.go', 'val = string(param[equal+1:]) // escape', 'val = string(bytes.TrimSpace(param[equal+1:])) // escape'),
 ('h101', 'C23', 'tracker/http/forwarded_appeng.go', 'if bytes.Contains(headerValue, []byte(",")) {', 'if bytes.Count(headerValue, []byte(",")) == 1 {'),
 ('h103', 'C35', 'controller/controller.go', '\tif ip == "" {\n', '\tif ip == "" || ip == "0.0.0.0" || ip == "::" {\n'),
 ('h104', 'C28', 'config/embed.go', '\t\tif filename == "trakx.yaml" {\n\t\t\tcontinue\n\t\t}\n', ''),
 ('h105', 'C11', 'tracker/storage/map/backup_pg.go', '\tif time.Since(ts) > backupRecentWindow && firstTry {', '\tif time.Since(ts.Local()) > backupRecentWindow && firstTry {'),
 ('h106', 'C34,C01', 'tracker/storage/map/peer.go', '\t// update metrics\n\tif !fast {\n\t\tif peerExists {', '\t// update metrics\n\tif fast && peerExists && peer.IP == ip {\n\t\tpeer.LastSeen = time.Now().Unix()\n\t\tpeermap.mutex.Unlock()\n\t\treturn\n\t}\n\tif !fast {\n\t\tif peerExists {'),
 ('h107', 'C32', 'tracker/utils/runon.go', '\tnextTick := time.Now().Truncate(duration)\n', '\tnextTick := time.Now().Round(duration)\n'),
 ('h108', 'C17,C15', 'tracker/udp/scrape.go', '\t\tresp.Info = append(resp.Info, info)\n', '\t\tresp.Info = append(resp.Info, info)\n\t\tif len(resp.Info) == 73 {\n\t\t\tbreak\n\t\t}\n'),
 ("i1", "C02,C07,C17", "tracker/storage/map/hash.go", "\tdb.mutex.RLock()\n\tpeermap, ok := db.hashmap[hash]\n\tdb.mutex.RUnlock()\n\tif !ok {\n\t\treturn\n\t}\n\n\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete", "\tdb.mutex.RLock()\n\tpeermap, ok := db.lastMap, db.lastMap != nil && db.lastHash == hash\n\tif !ok {\n\t\tpeermap, ok = db.hashmap[hash]\n\t}\n\tdb.mutex.RUnlock()\n\tif !ok {\n\t\treturn\n\t}\n\tdb.mutex.Lock()\n\tdb.lastHash, db.lastMap = hash, peermap\n\tdb.mutex.Unlock()\n\n\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete"),
 ("i2", "C04,C01", "tracker/storage/map/peer.go", "\tpeermap.mutex.Unlock()\n\n\tif !fast {\n\t\tif peer.Complete {", "\tempty := len(peermap.Peers) == 0\n\tpeermap.mutex.Unlock()\n\tif empty {\n\t\tdb.mutex.Lock()\n\t\tdelete(db.hashmap, hash)\n\t\tdb.mutex.Unlock()\n\t}\n\n\tif !fast {\n\t\tif peer.Complete {"),
 ("i3", "C07,C01", "tracker/storage/map/peer.go", "\tpeer.LastSeen = time.Now().Unix()\n", "\tif now := time.Now().Unix(); !peerExists || now-peer.LastSeen > 60 {\n\t\tpeer.LastSeen = now\n\t}\n"),
 ("i4", "C07", "tracker/storage/map/memory.go", "\tnow := time.Now().Unix()\n", "\tnow := time.Now().Truncate(time.Minute).Unix()\n"),
 ("i5", "C07", "tracker/storage/map/memory.go", "int64(config.Config.DB.Expiry.Seconds())", "int64(config.Config.DB.Expiry.Minutes()) * 60"),
 ("i6", "C09", "tracker/utils/writefile.go", "\treturn os.Rename(file.Name(), path)", "\tif err := os.Rename(file.Name(), path); err != nil {\n\t\treturn os.WriteFile(path, data, perm)\n\t}\n\treturn nil"),
 ("i7", "C09", "tracker/utils/writefile.go", "\t_, err = file.Write(data)\n", "\tif len(data) > 0 {\n\t\tfile.Truncate(int64(len(data)))\n\t}\n\t_, err = file.Write(data)\n"),
 ("i8", "C09,C37", "tracker/utils/writefile.go", "\tfile, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+\".*.tmp\")\n", "\tfile, err := os.OpenFile(path+\".tmp\", os.O_WRONLY|os.O_CREATE, 0600)\n"),
 ("i9", "C08,C10", "tracker/storage/map/backup_file.go", "\tencoded, err = bck.db.encodeBinary()\n", "\tseeds := stats.Seeds.Load()<<32 | stats.Leeches.Load()\n\tif encoded = bck.last; encoded == nil || seeds != bck.seeds {\n\t\tencoded, err = bck.db.encodeBinary()\n\t\tbck.last, bck.seeds = encoded, seeds\n\t}\n"),
 ("i10", "C08,C36,C24", "tracker/storage/map/memory.go", "\t\t\tif err := db.backup.Save(); err != nil {", "\t\t\tif stats.Seeds.Load()+stats.Leeches.Load() == db.saved {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tdb.saved = stats.Seeds.Load() + stats.Leeches.Load()\n\t\t\tif err := db.backup.Save(); err != nil {"),
 ("i11", "C11", "tracker/storage/map/backup_pg.go", "\t\tfirstTry = false\n\n", ""),
 ("i12", "C11", "tracker/storage/map/backup_pg.go", "> backupRecentWindow && firstTry", "> backupRecentWindow && len(bytes) > 0 && firstTry"),
 ("i13", "C11", "tracker/storage/map/backup_pg.go", "\tpeers, hashes, err := bck.db.decodeBinary(bytes)\n", "\tif len(bytes) == 0 {\n\t\treturn errors.New(\"empty backup\")\n\t}\n\tpeers, hashes, err := bck.db.decodeBinary(bytes)\n"),
 ("i14", "C13", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {", "\tif ok && (cid.ID == id || cid.Prev == id && id != 0) {"),
 ("i15", "C14,C13", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {\n", "\tif ok && cid.ID == id {\n\t\tdb.mutex.Lock()\n\t\tcid.TimeStamp = time.Now().Unix()\n\t\tdb.connectionMap[addr] = cid\n\t\tdb.mutex.Unlock()\n"),
 ("i16", "C14,C13", "tracker/udp/conndb.go", "\t\t\tdelete(db.connectionMap, key)\n\t\t\ttrimmed++\n", "\t\t\tdelete(db.connectionMap, key)\n\t\t\tif trimmed++; trimmed == 2000 {\n\t\t\t\tbreak\n\t\t\t}\n"),
 ("i17", "C13,C15", "tracker/udp/udptracker.go", "\tif ok := u.conndb.check(connid, addrPort); !ok && config.Config.UDP.ConnDB.Validate {", "\tif ok := u.conndb.check(connid, addrPort); !ok && config.Config.UDP.ConnDB.Validate && !addrPort.Addr().IsLoopback() {"),
 ("i18", "C16", "tracker/udp/announce.go", "rand.Int31n(int32(config.Config.Announce.Fuzz.Seconds()))", "rand.Int31n(int32(config.Config.Announce.Fuzz.Seconds())+2)"),
 ("i19", "C16,C15", "tracker/udp/announce.go", "\tif addrPort.Addr().Is4() {", "\tif addrPort.Addr().Is4() || len(peers6) == 0 {"),
 ("i20", "C18", "tracker/http/parser.go", "\t\tif bs[i] == '%' {", "\t\tif bs[i] == '+' {\n\t\t\tbs[i] = ' '\n\t\t}\n\t\tif bs[i] == '%' {"),
 ("i21", "C18", "tracker/http/parser.go", "\t// pathstart should come before", "\tif fragment := bytes.IndexByte(data[:p.URLend], '#'); fragment > p.pathstart {\n\t\tp.URLend = fragment\n\t}\n\n\t// pathstart should come before"),
 ("i22", "C28", "tracker/http/worker.go", "\t\t\tif data, ok := w.fileCache[p.Path]; ok {", "\t\t\tif data, ok := w.fileCache[strings.ToLower(p.Path)]; ok {"),
 ("i23", "C22,C37", "tracker/http/worker.go", "\t\tsize, err := conn.Read(data)\n\t\tif err != nil {\n\t\t\tconn.Close()\n", "\t\tsize, err := conn.Read(data)\n\t\tif err != nil {\n\t\t\tif nerr, ok := err.(net.Error); !ok || !nerr.Timeout() {\n\t\t\t\tconn.Close()\n\t\t\t}\n"),
 ("i24", "C24", "tracker/signalhandler.go", "\t\t\tudptracker.Shutdown()\n\t\t\thttptracker.Shutdown()\n", "\t\t\tgo httptracker.Shutdown()\n\t\t\tudptracker.Shutdown()\n"),
 ("i25", "C24", "tracker/signalhandler.go", "\tsignal.Notify(saveChannel, syscall.SIGUSR1)\n", "\tsignal.Notify(saveChannel, syscall.SIGUSR1)\n\tvar last time.Time\n"),
 ("i26", "C26,C33", "controller/controller.go", "\tpidFileExists, processAlive, heartbeat := controller.Status()\n\tif pidFileExists || processAlive || heartbeat {", "\tpidFileExists, processAlive, heartbeat := controller.Status()\n\tif pidFileExists && (processAlive || heartbeat) {"),
 
 ("i28", "C27", "config/config.go", "\tconfig.HTTP.Mode = strings.ToLower(config.HTTP.Mode)\n", "\tconfig.HTTP.Mode = strings.ToLower(config.HTTP.Mode)\n\tif config.DB.Expiry == 0 {\n\t\tconfig.DB.Expiry = config.Announce.Base + config.Announce.Fuzz\n\t}\n"),
 ("i29", "C29", "bencoding/dictionary.go", "\tcase uint, uint8, uint16, uint32, uint64:\n\t\td.write(integer(v))\n", "\tcase uint, uint8, uint16, uint32, uint64:\n\t\td.write(integer(int64(reflect.ValueOf(v).Uint())))\n"),
 ("i30", "C29", "bencoding/dictionary.go", "\t\t\tif err := dict.Any(k, v); err != nil {\n\t\t\t\td.buf = d.buf[:start]\n\t\t\t\treturn err\n\t\t\t}\n", "\t\t\tif err := dict.Any(k, v); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n"),
 ("i31", "C32", "tracker/utils/runon.go", "\t\ttime.Sleep(time.Until(nextTick))\n", "\t\tif late := time.Since(nextTick); late > duration {\n\t\t\tnextTick = time.Now().Truncate(duration)\n\t\t}\n\t\ttime.Sleep(time.Until(nextTick))\n"),
 ("i32", "C32", "tracker/utils/runon.go", "\tnextTick := time.Now().Truncate(duration)\n", "\tnextTick := time.Now().Round(duration)\n"),
 ("i33", "C34,C08", "tracker/storage/map/expvar.go", "\tstats.Seeds.Store(seeds)\n", "\tif fast {\n\t\treturn nil\n\t}\n\tstats.Seeds.Store(seeds)\n"),
 ("i34", "C35", "tracker/tracker.go", "Addr:         net.JoinHostPort(strings.Trim(config.Config.HTTP.IP, \"[]\"), strconv.Itoa(config.Config.HTTP.Port)),", "Addr:         \":\" + strconv.Itoa(config.Config.HTTP.Port),"),
 ("i35", "C35", "tracker/tracker.go", "\t\t\tif err := udptracker.Serve(); err != nil {\n\t\t\t\tconfig.Logger.Fatal(", "\t\t\tif err := udptracker.Serve(); err != nil {\n\t\t\t\tconfig.Logger.Error("),
 ("i36", "C36,C24", "tracker/udp/udptracker.go", "\tif err := conndb.loadFromFile(config.CachePath + \"conn.db\"); err != nil {", "\terr := conndb.loadFromFile(config.CachePath + \"conn.db\")\n\tos.Remove(config.CachePath + \"conn.db\")\n\tif err != nil {"),
 ("i37", "C37,C22", "tracker/http/announce.go", "\tconn.Write(append(httpSuccessBytes, dictionary.GetBytes()...))\n", "\tdone := make(chan struct{})\n\tgo func() {\n\t\tconn.Write(append(httpSuccessBytes, dictionary.GetBytes()...))\n\t\tdone <- struct{}{}\n\t}()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(config.Config.HTTP.Timeout.Write):\n\t\treturn\n\t}\n"),
 ("i38", "C31,C06", "tracker/storage/map/hash.go", "\tpeers4 = peers4[:pos4]\n\tpeers6 = peers6[:pos6]\n", "\tpeers4 = peers4[:pos4]\n\tpeers6 = peers6[:pos6]\n\tif pos6 == 0 {\n\t\tpools.Peerlists6.Put(peers6)\n\t}\n"),
 ("i39", "C02,C08", "tracker/storage/map/encode_binary.go", "\t\t\tpeermap.Peers[id] = peer\n", "\t\t\tif old, ok := peermap.Peers[id]; ok {\n\t\t\t\tpools.Peers.Put(old)\n\t\t\t}\n\t\t\tpeermap.Peers[id] = peer\n"),
 ("i40", "C21,C18", "tracker/http/parser.go", "maxparams = 45", "maxparams = 41"),
 ("i41", "C25", "tracker/udp/udptracker.go", "\tstats.Hits.Add(1)\n\n\taction", "\tdefer stats.Hits.Add(1)\n\n\taction"),
 ("i42", "C25", "tracker/http/announce.go", "\tstats.Announces.Add(1)\n", "\tif vals.event != \"stopped\" {\n\t\tstats.Announces.Add(1)\n\t}\n"),
 ("i43", "C17", "tracker/udp/scrape.go", "\t\tcomplete, incomplete := u.peerdb.HashStats(hash)\n", "\t\tcomplete, incomplete := u.peerdb.HashStats(hash)\n\t\tif complete+incomplete == 0 {\n\t\t\tcomplete, incomplete = 0, 0\n\t\t\tcontinue\n\t\t}\n"),
 ("i44", "C30", "tracker/udp/protocol/scrape.go", "(len(data)-16)/20", "(len(data)-8)/20"),
 ("i45", "C12", "tracker/storage/map/encode_binary.go", "\t\tif errors.Is(err, io.EOF) {", "\t\tif errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {"),
 ("i46", "C12", "tracker/storage/map/encode_binary.go", "\t\t\taddrSlice := make([]byte, addrSliceLen)\n\t\t\tif err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {\n\t\t\t\treturn", "\t\t\taddrSlice := make([]byte, addrSliceLen)\n\t\t\tif err = binary.Read(reader, binary.LittleEndian, &addrSlice); errors.Is(err, io.EOF) {\n\t\t\t\terr = nil\n\t\t\t\tbreak\n\t\t\t} else if err != nil {\n\t\t\t\treturn"),
 ("i47", "C23", "tracker/http/forwarded_appeng.go", "\theaderKey := []byte(\"\\r\\nX-Forwarded-For:\")\n", "\theaderKey := []byte(\"X-Forwarded-For:\")\n"),
 ("i48", "C20,C19", "tracker/http/announce.go", "\tnumwant := config.Config.Numwant.Default\n\tif numwant > config.Config.Numwant.Limit {\n\t\tnumwant = config.Config.Numwant.Limit\n\t}\n", "\tnumwant := config.Config.Numwant.Default\n"),
 ("j5", "C10,C08", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RLock()\n", "\t\tif !submap.mutex.TryRLock() {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n"),
 ("j6", "C04,C07", "tracker/storage/map/memory.go", "\t\tpeermap.mutex.Lock()\n\t\tfor id", "\t\tif !peermap.mutex.TryLock() {\n\t\t\tdb.mutex.RLock()\n\t\t\tcontinue\n\t\t}\n\t\tfor id"),
 ("j7", "C10", "tracker/storage/map/encode_binary.go", "\t\tsubmap.mutex.RLock()\n", "\t\tcount := uint32(len(submap.Peers))\n\t\tsubmap.mutex.RLock()\n"),
 ("j12", "C31,C05", "tracker/http/consts.go", "\thttpSuccessBytes = []byte(httpSuccess)\n", "\thttpSuccessBytes = append(make([]byte, 0, 16384), httpSuccess...)\n"),
 ("j18", "C08,C14", "tracker/storage/map/encode_binary.go", "binary.LittleEndian, peer.LastSeen)", "binary.LittleEndian, int32(peer.LastSeen))"),
 ("j19", "C07,C36", "tracker/storage/map/memory.go", "now-peer.LastSeen > peerTimeout", "uint64(now-peer.LastSeen) > uint64(peerTimeout)"),
 ("j20", "C14", "tracker/udp/conndb.go", "epoch-conn.TimeStamp > db.expiry", "uint64(epoch-conn.TimeStamp) > uint64(db.expiry)"),
 ("j47", "C16", "tracker/udp/announce.go", "announce.Left == 0", "announce.Left <= 0"),
 ("j52", "C28", "tracker/http/worker.go", "w.fileCache[p.Path]", "w.fileCache[path.Clean(p.Path)]"),
 ("j53", "C28", "tracker/http/worker.go", "w.fileCache[p.Path]", "w.fileCache[\"/\"+strings.Trim(p.Path, \"/\")]"),
 ("j55", "C20", "tracker/http/announce.go", "vals.event == \"stopped\"", "strings.EqualFold(vals.event, \"stopped\")"),
 ("j56", "C20", "tracker/http/announce.go", "strconv.Atoi(vals.port)", "strconv.Atoi(strings.TrimSpace(vals.port))"),
 ("j57", "C20", "tracker/http/announce.go", "portInt, err := strconv.Atoi(vals.port)", "portInt, err := strconv.ParseInt(vals.port, 0, 64)"),
 ("j58", "C20", "tracker/http/announce.go", "numwantInt, err := strconv.Atoi(vals.numwant)", "numwantInt, err := strconv.ParseInt(vals.numwant, 0, 64)"),
 ("j61", "C20", "tracker/http/worker.go", "\t\t\t\tcase \"compact\":\n\t\t\t\t\tif val == \"1\" {", "\t\t\t\tcase \"compact\":\n\t\t\t\t\tif val != \"0\" {"),
 ("j65", "C32,C24", "tracker/storage/map/memory.go", "utils.RunOn(config.Config.DB.Trim, db.Trim)", "utils.RunOn(config.Config.DB.Backup.Frequency, db.Trim)"),
 ("j68", "C25,C22", "tracker/http/worker.go", "w.tracker.clientError(conn, \"Failed to parse X-Forwarded-For\")", "writeErr(conn, \"Failed to parse X-Forwarded-For\")"),
 ("j69", "C31,C05", "tracker/http/forwarded_appeng.go", "\treturn true, bytes.TrimSpace(headerValue)\n", "\tlastForwarded = append(lastForwarded[:0], bytes.TrimSpace(headerValue)...)\n\treturn true, lastForwarded\n"),
 ("j77", "C02,C08", "tracker/storage/map/encode_binary.go", "uint32(len(submap.Peers))); err", "uint16(len(submap.Peers))); err"),
 ("j86", "C31,C15", "tracker/udp/udptracker.go", "\t\t\t\t\tu.process((*data)[:size], remoteAddr)", "\t\t\t\t\tgo u.process((*data)[:size], remoteAddr)"),
 ("j88", "C16", "tracker/udp/announce.go", "\tu.sock.WriteToUDP(respBytes, remote)\n}", "\tif len(respBytes) > 1472 {\n\t\trespBytes = respBytes[:1472]\n\t}\n\tu.sock.WriteToUDP(respBytes, remote)\n}"),
 ("j94", "C26,C33", "controller/pidfile.go", "\treturn os.WriteFile(pidFile.path, []byte(strconv.Itoa(processID)), pidFilePermissions)", "\tfile, err := os.OpenFile(pidFile.path, os.O_WRONLY|os.O_CREATE, pidFilePermissions)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer file.Close()\n\t_, err = file.WriteString(strconv.Itoa(processID))\n\treturn err"),
 ("j100", "C08,C36", "tracker/storage/map/backup_file.go", "\tif err := utils.WriteFile(", "\tif len(encoded) == bck.last {\n\t\treturn len(encoded), nil\n\t}\n\tbck.last = len(encoded)\n\tif err := utils.WriteFile("),
 ("j102", "C24,C14", "tracker/udp/conndb.go", "\tencoded, err := connDb.gobEncode()\n", "\tif n := connDb.size(); n == connDb.saved {\n\t\treturn nil\n\t} else {\n\t\tconnDb.saved = n\n\t}\n\tencoded, err := connDb.gobEncode()\n"),
 ("j106", "C07", "tracker/storage/map/memory.go", "\t\t\t\tpeers++\n", "\t\t\t\tpeers++\n\t\t\t\tif peers%10000 == 0 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n"),
 ("j107", "C07", "tracker/storage/map/memory.go", "\t\tif peersize == 0 {\n", "\t\tif peersize == 0 && hashes < 1000 {\n"),
 ("j110", "C14", "tracker/udp/udptracker.go", "\t\tconndb.make()\n\t}\n", "\t\tconndb.make()\n\t}\n\tconndb.trim()\n"),
 ("j111", "C14,C13", "tracker/udp/conndb.go", "func (db *connectionDatabase) check(id int64, addr netip.AddrPort) bool {\n\tdb.mutex.RLock()\n", "func (db *connectionDatabase) check(id int64, addr netip.AddrPort) bool {\n\tif id == 0 {\n\t\treturn false\n\t}\n\tdb.mutex.RLock()\n"),
 ("jb87", "C31,C15,C24,C37,C25", "tracker/udp/udptracker.go", "\t\t\t\t\tu.process((*data)[:size], remoteAddr)", "\t\t\t\t\tbuf := append([]byte(nil), (*data)[:size]...)\n\t\t\t\t\tu.process(buf, remoteAddr)"),
 ("jb112", "C08,C09,C10,C11,C12", "tracker/storage/map/encode_binary.go", "\t\t\tif err := binary.Write(writer, binary.LittleEndian, peer.LastSeen); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n", ""),
 ("jb113", "C08,C09,C12,C13,C14,C24,C36,C05", "tracker/udp/conndb.go", "connDb.gobEncode()", "connDb.marshallBinary()"),
 ("jb95", "C26,C33", "controller/pidfile.go", "\treturn os.Truncate(pidFile.path, 0)", "\treturn os.WriteFile(pidFile.path, nil, pidFilePermissions)"),
 ("jb96", "C11,C08", "tracker/storage/map/backup_pg.go", "SELECT bytes, ts FROM trakx ORDER BY ts DESC LIMIT 1", "SELECT ts, bytes FROM trakx ORDER BY ts DESC LIMIT 1"),
 ("jb97", "C11", "tracker/storage/map/backup_pg.go", "CREATE TABLE IF NOT EXISTS trakx (ts TIMESTAMP DEFAULT now(), bytes BYTEA)", "CREATE TABLE IF NOT EXISTS trakx (ts TIMESTAMP NOT NULL DEFAULT now(), bytes BYTEA NOT NULL)"),
 ("k2", "C01,C07,C36", "tracker/storage/map/peer.go", "\tpeer.LastSeen = time.Now().Unix()\n", "\tif !peerExists || !complete || peer.LastSeen == 0 {\n\t\tpeer.LastSeen = time.Now().Unix()\n\t}\n"),
 ("k3", "C01,C16,C20", "tracker/storage/map/peer.go", "\tpeer.IP = ip\n\tpeer.Port = port\n", "\tif !peerExists || peer.IP == ip || peer.Port == 0 {\n\t\tpeer.Port = port\n\t}\n\tpeer.IP = ip\n"),
 ("k4", "C03", "tracker/storage/map/peer.go", "\t\t\tif !peer.Complete && complete {\n\t\t\t\tstats.Leeches", "\t\t\tif !peer.Complete && complete && (peer.IP == ip || peer.Port == port) {\n\t\t\t\tstats.Leeches"),
 ("k8", "C20,C36", "tracker/http/announce.go", "vals.event == \"completed\" || vals.noneleft", "vals.event == \"completed\" || vals.noneleft && vals.event != \"started\""),
 ("k9", "C16", "tracker/udp/announce.go", "announce.Event == protocol.EventCompleted || announce.Left == 0", "announce.Event == protocol.EventCompleted || announce.Left == 0 && announce.Event != protocol.EventStarted"),
 ("k11", "C20", "tracker/http/announce.go", "if vals.event == \"stopped\" {", "if vals.event == \"stopped\" && vals.numwant != \"0\" {"),
 ("k13", "C08", "tracker/storage/map/encode_binary.go", "\t\tfor id, peer := range submap.Peers {\n", "\t\tfor id, peer := range submap.Peers {\n\t\t\tif peer.LastSeen < 0 {\n\t\t\t\tcontinue\n\t\t\t}\n"),
 ("k23", "C14,C13", "tracker/udp/connect.go", "\tid := rand.Int63()\n\tu.conndb.add(id, addr)\n", "\tid := rand.Int63()\n\tu.conndb.mutex.RLock()\n\told, ok := u.conndb.connectionMap[addr]\n\tu.conndb.mutex.RUnlock()\n\tif ok {\n\t\tid = old.ID\n\t} else {\n\t\tu.conndb.add(id, addr)\n\t}\n"),
 ("k24", "C16,C15", "tracker/udp/announce.go", "\tif addrPort.Addr().Is4() {\n", "\tif addrPort.Addr().Is4() || len(peers6) == 0 {\n"),
 ("k25", "C16", "tracker/udp/announce.go", "\tu.peerdb.Save(addrPort.Addr(), announce.Port, peerComplete, announce.InfoHash, announce.PeerID)\n\n\tcomplete, incomplete := u.peerdb.HashStats(announce.InfoHash)\n", "\tcomplete, incomplete := u.peerdb.HashStats(announce.InfoHash)\n\tu.peerdb.Save(addrPort.Addr(), announce.Port, peerComplete, announce.InfoHash, announce.PeerID)\n\tif complete+incomplete == 0 {\n\t\tcomplete, incomplete = u.peerdb.HashStats(announce.InfoHash)\n\t}\n"),
 ("k26", "C20", "tracker/http/announce.go", "\tt.peerdb.Save(ip, uint16(portInt), peerComplete, hash, peerid)\n\tcomplete, incomplete := t.peerdb.HashStats(hash)\n", "\tcomplete, incomplete := t.peerdb.HashStats(hash)\n\tt.peerdb.Save(ip, uint16(portInt), peerComplete, hash, peerid)\n\tif complete+incomplete == 0 {\n\t\tcomplete, incomplete = t.peerdb.HashStats(hash)\n\t}\n"),
 ("k27", "C16,C07", "tracker/udp/announce.go", "\tif announce.Event == protocol.EventStopped {\n\t\tu.peerdb.Drop(announce.InfoHash, announce.PeerID)\n", "\tif announce.Event == protocol.EventStopped {\n\t\tif c, i := u.peerdb.HashStats(announce.InfoHash); c+i > 1 {\n\t\t\tu.peerdb.Drop(announce.InfoHash, announce.PeerID)\n\t\t} else {\n\t\t\tu.peerdb.Save(addrPort.Addr(), announce.Port, false, announce.InfoHash, announce.PeerID)\n\t\t\tu.peerdb.Drop(announce.InfoHash, announce.PeerID)\n\t\t}\n"),
 ("k28", "C08,C36", "tracker/storage/map/encode_binary.go", "\t\t\tpeermap.Peers[id] = peer\n\t\t\tpeers++\n", "\t\t\tif peers++; peer.LastSeen == 0 || peer.IP.IsUnspecified() {\n\t\t\t\tpools.Peers.Put(peer)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tpeermap.Peers[id] = peer\n"),
 ("k29", "C01,C02", "tracker/storage/map/peer.go", "\tpeer, peerExists := peermap.Peers[id]\n", "\tpeer, peerExists := peermap.Peers[id]\n\tif !peerExists {\n\t\tfor other, p := range peermap.Peers {\n\t\t\tif p.IP == ip && p.Port == port && p.Complete != complete {\n\t\t\t\tmemoryDb.delete(p, peermap, other)\n\t\t\t}\n\t\t}\n\t}\n"),
 ("k30", "C31,C05", "tracker/http/wrappers.go|tracker/http/consts.go|tracker/http/announce.go", "httpSuccessBytes = []byte(httpSuccess)", "httpSuccessBytes = append(make([]byte, 0, 4096), httpSuccess...)"),
 ("k35", "C15", "tracker/udp/udptracker.go", "\tif action == protocol.ActionHeartbeat {", "\tif last, ok := u.last.Load(addrPort); ok && last == txid && action == protocol.ActionScrape {\n\t\treturn\n\t}\n\tu.last.Store(addrPort, txid)\n\n\tif action == protocol.ActionHeartbeat {"),
 ("k36", "C14,C13", "tracker/udp/conndb.go", "\tdb.mutex.Lock()\n\tdb.connectionMap[addr] = connectionInfo{", "\tdb.mutex.Lock()\n\tif uint64(len(db.connectionMap)) > config.Config.UDP.ConnDB.Size {\n\t\tfor key := range db.connectionMap {\n\t\t\tdelete(db.connectionMap, key)\n\t\t\tbreak\n\t\t}\n\t}\n\tdb.connectionMap[addr] = connectionInfo{"),
 ("k37", "C15,C13", "tracker/udp/error.go", "\t\tconfig.Logger.Info(\"Client Err\", fields...)\n", "\t\tconfig.Logger.Info(\"Client Err\", fields...)\n\t\tif len(fieldMap) == 0 {\n\t\t\treturn nil\n\t\t}\n"),
 ("k38", "C20,C16", "tracker/http/announce.go", "\tinterval := int64(config.Config.Announce.Base.Seconds())\n", "\tinterval := int64(config.Config.Announce.Base.Seconds())\n\tif complete+incomplete > 1000 {\n\t\tinterval *= 2\n\t}\n"),
 ("k39", "C16", "tracker/udp/announce.go", "\tpeers4, peers6 := u.peerdb.PeerListBytes(announce.InfoHash, uint(announce.NumWant))\n", "\tnumWant := uint(announce.NumWant)\n\tif peerComplete && numWant > uint(incomplete) {\n\t\tnumWant = uint(incomplete) + 1\n\t}\n\tpeers4, peers6 := u.peerdb.PeerListBytes(announce.InfoHash, numWant)\n"),
 ("k40", "C20", "tracker/http/announce.go", "\tif vals.numwant != \"\" {\n", "\tif vals.numwant != \"\" && !(peerStopped(vals) || vals.noneleft && vals.compact) {\n"),
 ("k41", "C21", "tracker/http/scrape.go", "\t\tcomplete, incomplete := t.peerdb.HashStats(hash)\n", "\t\tvar complete, incomplete uint32\n\t\tif c, ok := scraped.Load(hash); ok && c.(entry).at == time.Now().Unix() {\n\t\t\tcomplete, incomplete = c.(entry).complete, c.(entry).incomplete\n\t\t} else {\n\t\t\tcomplete, incomplete = t.peerdb.HashStats(hash)\n\t\t\tscraped.Store(hash, entry{time.Now().Unix(), complete, incomplete})\n\t\t}\n"),
 ("k44", "C14", "tracker/udp/conndb.go", "\t\t\tdelete(db.connectionMap, key)\n\t\t\ttrimmed++\n", "\t\t\tdelete(db.connectionMap, key)\n\t\t\ttrimmed++\n\t\t\tif trimmed > len(db.connectionMap) {\n\t\t\t\tbreak\n\t\t\t}\n"),
 ("k46", "C14", "tracker/udp/conndb.go", "\tif ok && cid.ID == id {\n", "\tif ok && cid.ID == id {\n\t\tif now := time.Now().Unix(); now-cid.TimeStamp > db.expiry/2 {\n\t\t\tdb.add(id, addr)\n\t\t}\n"),
 ("k47", "C16,C36", "tracker/udp/announce.go", "\tif announce.Event == protocol.EventCompleted || announce.Left == 0 {\n\t\tpeerComplete = true\n\t}\n", "\tif announce.Event == protocol.EventCompleted || announce.Left == 0 {\n\t\tpeerComplete = true\n\t}\n\tif c, _ := u.peerdb.HashStats(announce.InfoHash); announce.Event == protocol.EventNone && c > 0 && announce.Downloaded == 0 && announce.Uploaded > 0 {\n\t\tpeerComplete = true\n\t}\n"),
 ("k48", "C02,C08", "tracker/storage/map/hash.go", "\tpeermap.mutex.RLock()\n\tcomplete = peermap.Complete\n\tincomplete = peermap.Incomplete\n\tpeermap.mutex.RUnlock()\n", "\tpeermap.mutex.Lock()\n\tif peermap.became {\n\t\tpeermap.became = false\n\t\tpeermap.Incomplete--\n\t\tpeermap.Complete++\n\t}\n\tcomplete = peermap.Complete\n\tincomplete = peermap.Incomplete\n\tpeermap.mutex.Unlock()\n"),
]
EXTRA = {
 "k48": [("tracker/storage/map/memory.go|tracker/storage/map/register.go", "\tComplete   uint32\n", "\tbecame     bool\n\tComplete   uint32\n"), ("tracker/storage/map/peer.go", "\t\tif !peer.Complete && complete {\n\t\t\tpeermap.Incomplete--\n\t\t\tpeermap.Complete++\n", "\t\tif !peer.Complete && complete {\n\t\t\tpeermap.became = true\n")],
 "k41": [("tracker/http/scrape.go", "func (t *HTTPTracker) scrape(", "var scraped sync.Map\n\ntype entry struct {\n\tat                   int64\n\tcomplete, incomplete uint32\n}\n\nfunc (t *HTTPTracker) scrape("), ("tracker/http/scrape.go", "import (\n", "import (\n\t\"sync\"\n\t\"time\"\n")],
 "k35": [("tracker/udp/udptracker.go", "\tpeerdb   storage.Database\n", "\tpeerdb   storage.Database\n\tlast     sync.Map\n")],
 "k40": [("tracker/http/announce.go", "func (t *HTTPTracker) announce(", "func peerStopped(v *announceParams) bool { return v.event == \"paused\" }\n\nfunc (t *HTTPTracker) announce(")],
 "j7": [("tracker/storage/map/encode_binary.go", "uint32(len(submap.Peers))); err", "count); err")],
 "j18": [("tracker/storage/map/encode_binary.go", "\t\t\tif err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {\n\t\t\t\treturn\n\t\t\t}\n", "\t\t\tvar seen int32\n\t\t\tif err = binary.Read(reader, binary.LittleEndian, &seen); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tpeer.LastSeen = int64(seen)\n")],
 "j52": [("tracker/http/worker.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"path\"\n")],
 "j53": [("tracker/http/worker.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"strings\"\n")],
 "j55": [("tracker/http/announce.go", "\t\"strconv\"\n", "\t\"strconv\"\n\t\"strings\"\n")],
 "j56": [("tracker/http/announce.go", "\t\"strconv\"\n", "\t\"strconv\"\n\t\"strings\"\n")],
 "j69": [("tracker/http/forwarded_appeng.go", "func parseForwarded(", "var lastForwarded []byte\n\nfunc parseForwarded(")],
 "j77": [("tracker/storage/map/encode_binary.go", "\t\tvar count uint32\n", "\t\tvar count uint16\n")],
 "j100": [("tracker/storage/map/backup_file.go", "\tdb *Memory\n}", "\tdb   *Memory\n\tlast int\n}")],
 "j102": [("tracker/udp/conndb.go", "\texpiry        int64\n", "\texpiry        int64\n\tsaved         int\n")],
 "jb112": [("tracker/storage/map/encode_binary.go", "\t\t\taddrSlice := peer.IP.AsSlice()\n", "\t\t\tif err := binary.Write(writer, binary.LittleEndian, peer.LastSeen); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\taddrSlice := peer.IP.AsSlice()\n"), ("tracker/storage/map/encode_binary.go", "\t\t\tif err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {\n\t\t\t\treturn\n\t\t\t}\n", ""), ("tracker/storage/map/encode_binary.go", "\t\t\tvar addrSliceLen int32\n", "\t\t\tvar addrSliceLen int32\n\t\t\tif err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {\n\t\t\t\treturn\n\t\t\t}\n")],
 "jb113": [("tracker/udp/conndb.go", "db.gobDecode(data)", "db.unmarshallBinary(data)")],
 "jb96": [("tracker/storage/map/backup_pg.go", "Scan(&bytes, &ts)", "Scan(&ts, &bytes)")],
 "i1": [("tracker/storage/map/memory.go", "\tbackup    storage.Backup\n", "\tlastHash  storage.Hash\n\tlastMap   *PeerMap\n\tbackup    storage.Backup\n")],
 "i7": [("tracker/utils/writefile.go", "\tif err == nil {\n\t\terr = file.Sync()\n\t}\n", "\tif err == nil && len(data) < 1<<20 {\n\t\tfile.Sync()\n\t}\n")],
 "i8": [("tracker/utils/writefile.go", "\t\"path/filepath\"\n", "")],
 "i9": [("tracker/storage/map/backup_file.go", "type FileBackup struct {\n", "type FileBackup struct {\n\tlast  []byte\n\tseeds int64\n"), ("tracker/storage/map/backup_file.go", "\t\"github.com/crimist/trakx/tracker/storage\"\n", "\t\"github.com/crimist/trakx/tracker/stats\"\n\t\"github.com/crimist/trakx/tracker/storage\"\n")],
 "i10": [("tracker/storage/map/memory.go", "\tbackup    storage.Backup\n", "\tsaved     int64\n\tbackup    storage.Backup\n"), ("tracker/storage/map/memory.go", "\t\"github.com/crimist/trakx/tracker/storage\"\n", "\t\"github.com/crimist/trakx/tracker/stats\"\n\t\"github.com/crimist/trakx/tracker/storage\"\n")],
 "i14": [("tracker/udp/conndb.go", "type connectionInfo struct {\n", "type connectionInfo struct {\n\tPrev      int64\n"), ("tracker/udp/conndb.go", "\tdb.connectionMap[addr] = connectionInfo{\n", "\tdb.connectionMap[addr] = connectionInfo{\n\t\tPrev:      db.connectionMap[addr].ID,\n")],
 "i22": [("tracker/http/worker.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"strings\"\n")],
 "i25": [("tracker/signalhandler.go", "\t\t\tconfig.Logger.Info(\"Received save signal\", zap.Any(\"signal\", sig))\n", "\t\t\tconfig.Logger.Info(\"Received save signal\", zap.Any(\"signal\", sig))\n\t\t\tif time.Since(last) < 10*time.Second {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tlast = time.Now()\n"), ("tracker/signalhandler.go", "\t\"syscall\"\n", "\t\"syscall\"\n\t\"time\"\n")],
 "i27": [("controller/controller.go", "\tfor ; err == nil && i < 100;", "\tfor ; err == nil && i < 1000;")],
 "i34": [("tracker/tracker.go", "\t\"net\"\n", ""), ("tracker/tracker.go", "\t\"strings\"\n", "")],
 "i36": [("tracker/udp/udptracker.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"os\"\n")],
 "i37": [("tracker/http/announce.go", "\t\"strconv\"\n", "\t\"strconv\"\n\t\"time\"\n")],
 'h27': [('tracker/http/worker.go', 'func (w *workers) work() {', 'var statRespWriter = fakeRespWriter{}\n\nfunc (w *workers) work() {')],
 'h33': [('tracker/stats/stats_slow.go', 'make(map[netip.Addr]int32,', 'make(map[netip.Addr]int8,'), ('tracker/stats/stats.go', 'map[netip.Addr]int32', 'map[netip.Addr]int8')],
 'h34': [('tracker/stats/stats_slow.go', 'make(map[netip.Addr]int32,', 'make(map[netip.Addr]int16,'), ('tracker/stats/stats.go', 'map[netip.Addr]int32', 'map[netip.Addr]int16')],
 'h35': [('tracker/storage/map/hash.go', 'complete = peermap.Complete', 'complete = uint32(peermap.Complete)'), ('tracker/storage/map/hash.go', 'incomplete = peermap.Incomplete', 'incomplete = uint32(peermap.Incomplete)'), ('tracker/storage/map/encode_binary.go', 'peermap.Complete = complete', 'peermap.Complete = uint16(complete)'), ('tracker/storage/map/encode_binary.go', 'peermap.Incomplete = uint32(len(peermap.Peers)) - complete', 'peermap.Incomplete = uint16(uint32(len(peermap.Peers)) - complete)')],
 'h66': [('tracker/http/worker.go', '\tfileCache config.EmbeddedCache\n}', '\tfileCache config.EmbeddedCache\n\tdata      []byte\n}'), ('tracker/http/httptracker.go', '\t\tfileCache: cache,\n', '\t\tfileCache: cache,\n\t\tdata:      make([]byte, httpRequestMax),\n')],
 'h75': [('tracker/storage/map/memory.go', '\tbackup    storage.Backup\n', '\tswept     int64\n\tbackup    storage.Backup\n')],
 'h97': [('tracker/signalhandler.go', '\t\t\t\tconfig.Logger.Error("UDP connections save failed", zap.Error(err))\n\t\t\t}\n\n\t\t\tos.Exit', '\t\t\t\tconfig.Logger.Error("UDP connections save failed", zap.Error(err))\n\t\t\t}\n\t\t\tudptracker.Shutdown()\n\n\t\t\tos.Exit')],
 'h99': [('bencoding/dictionary.go', 'import (\n', 'import (\n\t"bytes"\n')],
 'g1': [('tracker/http/scrape.go', '\tfor _, infohash := range infohashes {', '\tseen := make(map[[8]byte][2]uint32)\n\tfor _, infohash := range infohashes {'), ('go.mod', 'go 1.19', 'go 1.20')],
 'g2': [('tracker/storage/map/encode_binary.go', 'if err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {\n\t\t\t\treturn\n\t\t\t}', 'var seen int32\n\t\t\tif err = binary.Read(reader, binary.LittleEndian, &seen); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tpeer.LastSeen = int64(seen)')],
 'g10': [('tracker/storage/map/backup_file.go', '\tdb *Memory\n}', '\tdb   *Memory\n\tlast [3]int64\n}'), ('tracker/storage/map/backup_file.go', '\t"github.com/crimist/trakx/tracker/storage"\n', '\t"github.com/crimist/trakx/tracker/stats"\n\t"github.com/crimist/trakx/tracker/storage"\n')],
 'g12': [('tracker/udp/udptracker.go', '\tshutdown chan struct{}\n', '\tshutdown chan struct{}\n\twritten  int\n')],
 'g64': [('tracker/udp/conndb.go', '\texpiry        int64\n', '\texpiry        int64\n\tlastID        int64\n\tlastAddr      netip.AddrPort\n')],
 'g75': [('tracker/http/worker.go', '\t"expvar"\n', '\t"expvar"\n\t"io"\n')],
 "f10": [("tracker/http/announce.go", "\tnumwant  string\n}", "\tnumwant  string\n\tip       string\n}"), ("tracker/http/worker.go", "\t\t\tip = ip.WithZone", "\t\t\tif v.ip != \"\" {\n\t\t\t\tip = netip.MustParseAddr(v.ip)\n\t\t\t}\n\t\t\tip = ip.WithZone")],
 "f32": [("tracker/http/announce.go", "\t\"strconv\"\n", "\t\"strconv\"\n\t\"strings\"\n")],
 "f35": [("tracker/http/worker.go", "\tfileCache config.EmbeddedCache\n}", "\tfileCache config.EmbeddedCache\n\tdata      []byte\n}")],
 "e8": [("tracker/storage/map/expvar.go", "import (\n", "import (\n\t\"net/netip\"\n")],
 "e29": [("tracker/http/worker.go", "func (w *workers) work() {", "var lastParams announceParams\n\nfunc (w *workers) work() {"), ("tracker/http/worker.go", "\t\t\tw.tracker.announce(conn, &v, ip)\n", "\t\t\tlastParams = v\n\t\t\tw.tracker.announce(conn, &v, ip)\n")],
 "e45": [("controller/pidfile.go", "import (\n", "import (\n\t\"bytes\"\n")],
 "e49": [("tracker/http/worker.go", "\t\"net/netip\"\n", "\t\"net/netip\"\n\t\"strings\"\n")],
 "e68": [("tracker/udp/conndb.go", "\t\"github.com/crimist/trakx/tracker/utils\"\n", "")],
 "e67": [("tracker/storage/map/backup_file.go", "\t\"github.com/crimist/trakx/tracker/utils\"\n", "")],
 "ud13": [("tracker/udp/udptracker.go", "\tfor i := 0; i < config.Config.UDP.Threads; i++ {", "\tshared := pool.Get().(*[]byte)\n\tfor i := 0; i < config.Config.UDP.Threads; i++ {")],
 "ht11": [("tracker/http/worker.go", "func (w *workers) work() {", "var sharedBuf [httpRequestMax]byte\n\nfunc (w *workers) work() {")],
 "cf3": [("config/embed.go", "type EmbeddedCache", "func info(p string) int64 {\n\tst, err := os.Stat(p)\n\tif err != nil {\n\t\treturn -1\n\t}\n\treturn st.Size()\n}\n\ntype EmbeddedCache")],
 "bk6": [("tracker/storage/map/backup_file.go", "\tpeers, hashes, err := bck.db.loadFile", "\tpeers, hashes, err := bck.db.loadFile")],
}
env = dict(os.environ, VERIF_SECS=os.environ.get("VERIF_SECS", "40"))
pre = sys.argv[1:]
stable = set()
try:
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", []))
except Exception:
    pass
def edit(w, files, old, new):
    for f in files.split("|"):
        p = os.path.join(w, f)
        if os.path.exists(p) and old in open(p).read():
            s = open(p).read()
            open(p, "w").write(s.replace(old, new, 1))
            return True
    # anywhere in the directory of the first file
    d = os.path.join(w, os.path.dirname(files.split("|")[0]))
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if f.endswith(".go") and not f.endswith("_test.go") and old in open(p).read():
            s = open(p).read()
            open(p, "w").write(s.replace(old, new, 1))
            return True
    return False
for id, checks, files, old, new in M:
    if pre and not any(id == p or (p.endswith("*") and id.startswith(p[:-1])) for p in pre):
        continue
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        ok = edit(r, files, old, new)
        for f, o, n in EXTRA.get(id, []):
            ok = edit(r, f, o, n) and ok
        if not ok:
            print(id, "DOES NOT APPLY", flush=True); continue
        b = subprocess.run(["go", "build", "./..."], cwd=r, capture_output=True, text=True)
        if b.returncode:
            print(id, "DOES NOT BUILD", b.stderr[:300], flush=True); continue
        t = subprocess.run("go test ./... 2>&1 | grep -E '^ *--- FAIL|^panic' | grep -v TestUDPBadConnID | head -3", shell=True, cwd=r, capture_output=True, text=True).stdout.strip()
        out = []
        for c in checks.split(","):
            p = subprocess.run(["/verif/check.sh", c], env=dict(env, VERIF_REPO=r), capture_output=True, text=True)
            v = "VIOLATION property=" + c in p.stdout
            m = [l for l in p.stdout.splitlines() if l.startswith("FAILURE")]
            out.append("%s:%s" % (c, "caught" if p.returncode == 1 and v else "MISSED(%d)" % p.returncode))
            if m: out.append(m[0][9:150])
        print(id, "|tests:", t.replace("\n", " ")[:80] or "pass", "|", " ".join(out), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
