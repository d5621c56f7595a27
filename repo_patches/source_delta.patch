From a7cd119dc19f0aaf6e187444e86dc977da85c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 01/96] fix: rolling averages must be the mean of the window

The incremental update divided by the number of samples so far while the
average was over the previous number, so values were wrong while the window
was being filled and stayed wrong for ever.
---
 skyobject/statutil/average.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..18aae74 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -45,9 +45,9 @@ func NewDuration(n int) (d *Duration) {
 	d = new(Duration)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64 // sum of the bins
+		i, c int
 	)
 
 	d.roll = func(dur time.Duration) time.Duration {
@@ -60,11 +60,11 @@ func NewDuration(n int) (d *Duration) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		d.last = time.Duration(average)
+		d.last = time.Duration(sum / float64(c))
 		return d.last
 	}
 
@@ -106,9 +106,9 @@ func NewFloat(n int) (f *Float) {
 	f = new(Float)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64 // sum of the bins
+		i, c int
 	)
 
 	f.roll = func(dur float64) float64 {
@@ -121,12 +121,12 @@ func NewFloat(n int) (f *Float) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		f.last = average
-		return average
+		f.last = sum / float64(c)
+		return f.last
 	}
 
 	return
-- 
2.43.0


From 54e2250431aed8f5fc7f4875c15a9889ab819bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 02/96] fix: Error, Errorln and Errorf must write their
 arguments

Error and Errorln passed the whole argument slice as one argument (so lines
began with [[ERR]), Errorf put the text of the error into the format string.
---
 node/log/log.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..6529880 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -187,19 +187,20 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
 	errArgs := []interface{}{
-		"[ERR] ",
-		fmt.Sprintf("err=%s ", err),
+		"[ERR]",
+		fmt.Sprintf("err=%s", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprintln(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
+	format = "[ERR] err=%s " + format
+	args = append([]interface{}{err}, args...)
 	l.Output(2, fmt.Sprintf(format, args...))
 }
 
-- 
2.43.0


From 2a8ae7c3e3683abce17b6d12ba8636346bad9ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 03/96] fix: the -debug-pins flag must reach the configuration

FromFlags copied the value before the flags are parsed.
---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 6529880..1c78cd2 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From 2e67eb9399ac9609c70b158cdaf4dd31c57d727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 04/96] fix: memory CXDS Del must delete the object

It changed the statistics only.
---
 data/cxds/memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..8149667 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,8 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
+
 	return
 }
 
-- 
2.43.0


From b29f9f8dc8617e3601e2d350993787e20c1b6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 05/96] fix: a failed IterateDel of memory CXDS must delete
 nothing

As the drive CXDS does: an error of the callback cancels the deletions.
---
 data/cxds/memory.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 8149667..feb6f9f 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -229,24 +229,33 @@ func (m *memoryCXDS) IterateDel(
 	m.mx.Lock()
 	defer m.mx.Unlock()
 
-	var del bool
+	var (
+		del  bool
+		dels []cipher.SHA256 // to be deleted, if there is no error
+	)
 
 	for k, mo := range m.kvs {
 		if del, err = iterateFunc(k, mo.rc, mo.val); err != nil {
-			if err == data.ErrStopIteration {
-				err = nil
+			if err != data.ErrStopIteration {
+				return
 			}
-			return
+			err = nil
+			break
 		}
 		if del == true {
-			delete(m.kvs, k)
-			if mo.rc > 0 {
-				m.amountUsed--
-				m.volumeUsed -= len(mo.val)
-			}
-			m.amountAll--
-			m.voluemAll -= len(mo.val)
+			dels = append(dels, k)
+		}
+	}
+
+	for _, k := range dels {
+		var mo = m.kvs[k]
+		delete(m.kvs, k)
+		if mo.rc > 0 {
+			m.amountUsed--
+			m.volumeUsed -= len(mo.val)
 		}
+		m.amountAll--
+		m.voluemAll -= len(mo.val)
 	}
 
 	return
-- 
2.43.0


From f0f863a9a8f0cdc2d00153a3d9ed7ec1e37757c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 06/96] fix: drive CXDS Set must count all the references of a
 new object

It stored rc 1 whatever inc was. And Inc dropped the error of storing.
---
 data/cxds/drive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..8b111c4 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
@@ -399,7 +399,7 @@ func (d *driveCXDS) Inc(
 	err error,
 ) {
 
-	var tx = func(tx *bolt.Tx) (_ error) {
+	var tx = func(tx *bolt.Tx) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
-- 
2.43.0


From 790031816d1530d1b22490968cf4bc88f9dfa2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 07/96] fix: statistics of drive CXDS must follow the committed
 objects

They were kept in memory, changed even if the transaction failed, and saved
by Close only (so wrong after a crash); moreover encodeUint32 ignored its
argument, thus every reopened DB reported the version number as all amounts
and volumes. Keep them in the meta bucket, changed by the transaction that
changes objects. A file without the new record is counted once when opened.
---
 data/cxds/drive.go | 324 ++++++++++++++++++++-------------------------
 1 file changed, 140 insertions(+), 184 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 8b111c4..8392d26 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -4,7 +4,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
-	"sync"
 	"time"
 
 	"github.com/boltdb/bolt"
@@ -20,22 +19,41 @@ var (
 
 	versionKey = []byte("version") // version
 
-	amountAllKey  = []byte("amount_all")  // amount all
-	amountUsedKey = []byte("amount_used") // amount used
-
-	volumeAllKey  = []byte("volume_all")  // volume all
-	volumeUsedKey = []byte("volume_used") // volume all
+	statKey = []byte("stat") // amounts and volumes
 )
 
-type driveCXDS struct {
-	mx sync.Mutex // lock amounts and volumes
+// statistic of the objects; it's stored in the meta bucket,
+// and every transaction that changes objects keeps it in
+// step with them; thus, it's correct even after a crash
+type driveStat struct {
+	amountAll  uint64 // amount of all objects
+	amountUsed uint64 // amount of used objects
 
-	amountAll  int // amount of all objects
-	amountUsed int // amount of used objects
+	volumeAll  uint64 // volume of all objects
+	volumeUsed uint64 // volume of used objects
+}
 
-	volumeAll  int // volume of all objects
-	volumeUsed int // volume of used objects
+func (d *driveStat) encode() (val []byte) {
+	val = make([]byte, 4*8)
+	binary.BigEndian.PutUint64(val[0:], d.amountAll)
+	binary.BigEndian.PutUint64(val[8:], d.amountUsed)
+	binary.BigEndian.PutUint64(val[16:], d.volumeAll)
+	binary.BigEndian.PutUint64(val[24:], d.volumeUsed)
+	return
+}
+
+func (d *driveStat) decode(val []byte) (err error) {
+	if len(val) != 4*8 {
+		return ErrWrongValueLength
+	}
+	d.amountAll = binary.BigEndian.Uint64(val[0:])
+	d.amountUsed = binary.BigEndian.Uint64(val[8:])
+	d.volumeAll = binary.BigEndian.Uint64(val[16:])
+	d.volumeUsed = binary.BigEndian.Uint64(val[24:])
+	return
+}
 
+type driveCXDS struct {
 	b *bolt.DB
 }
 
@@ -70,8 +88,6 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	}()
 
-	var saveStat bool
-
 	err = b.Update(func(tx *bolt.Tx) (err error) {
 
 		// first of all, take a look the meta bucket
@@ -95,10 +111,6 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return
 			}
 
-			// put stat
-
-			saveStat = true // save zeroes
-
 		} else {
 
 			// check out the version
@@ -118,149 +130,140 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 		}
 
-		_, err = tx.CreateBucketIfNotExists(objsBucket)
-		return
+		var o *bolt.Bucket
+		if o, err = tx.CreateBucketIfNotExists(objsBucket); err != nil {
+			return
+		}
 
-	})
+		// stat
 
-	if err != nil {
-		return
-	}
+		var stat driveStat
+
+		if val := info.Get(statKey); val != nil {
+			return stat.decode(val) // check
+		}
 
-	var dr = &driveCXDS{b: b} // wrap
+		// count objects of a DB file that doesn't have
+		// the stat (a new one, or made by previous CXO)
 
-	// stat
+		err = o.ForEach(func(_, val []byte) (_ error) {
+			stat.add(getRefsCount(val), len(val)-4)
+			return
+		})
 
-	if saveStat == true {
-		err = dr.saveStat()
-	} else {
-		err = dr.loadStat()
-	}
+		if err != nil {
+			return
+		}
+
+		return info.Put(statKey, stat.encode())
+
+	})
 
 	if err != nil {
 		return
 	}
 
-	ds = dr
+	ds = &driveCXDS{b: b} // wrap
 	return
 }
 
-func (d *driveCXDS) loadStat() (err error) {
-
-	d.mx.Lock()
-	defer d.mx.Unlock()
-
-	return d.b.View(func(tx *bolt.Tx) (err error) {
-
-		var (
-			info = tx.Bucket(metaBucket)
-			val  []byte
-		)
-
-		// amount all
-
-		if val = info.Get(amountAllKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
-
-		d.amountAll = int(decodeUint32(val))
-
-		// amount used
-
-		if val = info.Get(amountUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
+// add an object
+func (d *driveStat) add(rc uint32, vol int) {
+	d.amountAll++
+	d.volumeAll += uint64(vol)
 
-		d.amountUsed = int(decodeUint32(val))
+	d.change(0, rc, vol)
+}
 
-		// volume all
+// change rc of an object
+func (d *driveStat) change(rc, nrc uint32, vol int) {
 
-		if val = info.Get(volumeAllKey); len(val) != 4 {
-			return ErrWrongValueLength
+	if rc == 0 { // was dead
+		if nrc > 0 { // an be resurrected
+			d.amountUsed++
+			d.volumeUsed += uint64(vol)
 		}
+		return // else -> as is
+	}
 
-		d.volumeAll = int(decodeUint32(val))
-
-		// volume used
-
-		if val = info.Get(volumeUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
+	// rc > 0 (was alive)
 
-		d.volumeUsed = int(decodeUint32(val))
+	if nrc == 0 { // and be killed
+		d.amountUsed--
+		d.volumeUsed -= uint64(vol)
+	}
 
-		return
+}
 
-	})
+// del an object
+func (d *driveStat) del(rc uint32, vol int) {
+	d.change(rc, 0, vol)
 
+	d.amountAll--
+	d.volumeAll -= uint64(vol)
 }
 
-func (d *driveCXDS) saveStat() (err error) {
-
-	d.mx.Lock()
-	defer d.mx.Unlock()
+// update objects and statistic in one transaction
+func (d *driveCXDS) update(
+	updateFunc func(o *bolt.Bucket, stat *driveStat) (err error),
+) (
+	err error,
+) {
 
 	return d.b.Update(func(tx *bolt.Tx) (err error) {
 
-		var info = tx.Bucket(metaBucket)
-
-		// amount all
+		var (
+			info = tx.Bucket(metaBucket)
 
-		err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
+			stat driveStat
+		)
 
-		if err != nil {
+		if err = stat.decode(info.Get(statKey)); err != nil {
 			return
 		}
 
-		// amount used
+		var was = stat
 
-		err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
-
-		if err != nil {
+		if err = updateFunc(tx.Bucket(objsBucket), &stat); err != nil {
 			return
 		}
 
-		// volume all
-
-		err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
-
-		if err != nil {
+		if stat == was {
 			return
 		}
 
-		// volume used
-
-		err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
-		return
-
+		return info.Put(statKey, stat.encode())
 	})
 
 }
 
-func (d *driveCXDS) av(rc, nrc uint32, vol int) {
+// view objects
+func (d *driveCXDS) view(
+	viewFunc func(o *bolt.Bucket, stat *driveStat) (err error),
+) (
+	err error,
+) {
 
-	d.mx.Lock()
-	defer d.mx.Unlock()
+	return d.b.View(func(tx *bolt.Tx) (err error) {
+		return viewFunc(tx.Bucket(objsBucket), new(driveStat))
+	})
 
-	if rc == 0 { // was dead
-		if nrc > 0 { // an be resurrected
-			d.amountUsed++
-			d.volumeUsed += vol
-		}
-		return // else -> as is
-	}
+}
 
-	// rc > 0 (was alive)
+// stat returns current statistic, or
+// zeroes if the DB is already closed
+func (d *driveCXDS) stat() (stat driveStat) {
 
-	if nrc == 0 { // and be killed
-		d.amountUsed--
-		d.volumeUsed -= vol
-	}
+	d.b.View(func(tx *bolt.Tx) (err error) {
+		return stat.decode(tx.Bucket(metaBucket).Get(statKey))
+	})
 
+	return
 }
 
 func (d *driveCXDS) incr(
 	o *bolt.Bucket, // : objects
+	stat *driveStat, // : statistic
 	key []byte, //     : key[:]
 	val []byte, //     : value without leading rc (4 bytes)
 	rc uint32, //      : existing rc
@@ -290,9 +293,7 @@ func (d *driveCXDS) incr(
 	repl = append(repl, val...)
 	err = o.Put(key[:], repl)
 
-	if rc != nrc {
-		d.av(rc, nrc, len(val))
-	}
+	stat.change(rc, nrc, len(val))
 
 	return
 }
@@ -308,12 +309,9 @@ func (d *driveCXDS) Get(
 	err error, //         :
 ) {
 
-	var tx = func(tx *bolt.Tx) (err error) {
+	var get = func(o *bolt.Bucket, stat *driveStat) (err error) {
 
-		var (
-			o   = tx.Bucket(objsBucket)
-			got = o.Get(key[:])
-		)
+		var got = o.Get(key[:])
 
 		if len(got) == 0 {
 			return data.ErrNotFound // pass through
@@ -323,14 +321,14 @@ func (d *driveCXDS) Get(
 		val = make([]byte, len(got)-4)
 		copy(val, got[4:])
 
-		rc, err = d.incr(o, key[:], val, rc, inc)
+		rc, err = d.incr(o, stat, key[:], val, rc, inc)
 		return
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.view(get) // lookup only
 	} else {
-		err = d.b.Update(tx) // some changes
+		err = d.update(get) // some changes
 	}
 
 	return
@@ -340,14 +338,6 @@ func panicf(format string, args ...interface{}) {
 	panic(fmt.Sprintf(format, args...))
 }
 
-func (d *driveCXDS) addAll(vol int) {
-	d.mx.Lock()
-	defer d.mx.Unlock()
-
-	d.amountAll++
-	d.volumeAll += vol
-}
-
 // Set value and its references counter
 func (d *driveCXDS) Set(
 	key cipher.SHA256,
@@ -367,23 +357,20 @@ func (d *driveCXDS) Set(
 		return
 	}
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(o *bolt.Bucket, stat *driveStat) (err error) {
 
-		var (
-			o   = tx.Bucket(objsBucket)
-			got = o.Get(key[:])
-		)
+		var got = o.Get(key[:])
 
 		if len(got) == 0 {
 
 			// created
-			d.addAll(len(val))
+			stat.add(0, len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, inc)
+			rc, err = d.incr(o, stat, key[:], val, 0, inc)
 			return
 		}
 
-		rc, err = d.incr(o, key[:], got[4:], getRefsCount(got), inc)
+		rc, err = d.incr(o, stat, key[:], got[4:], getRefsCount(got), inc)
 		return
 	})
 
@@ -399,12 +386,9 @@ func (d *driveCXDS) Inc(
 	err error,
 ) {
 
-	var tx = func(tx *bolt.Tx) (err error) {
+	var tx = func(o *bolt.Bucket, stat *driveStat) (err error) {
 
-		var (
-			o   = tx.Bucket(objsBucket)
-			got = o.Get(key[:])
-		)
+		var got = o.Get(key[:])
 
 		if len(got) == 0 {
 			return data.ErrNotFound
@@ -416,33 +400,19 @@ func (d *driveCXDS) Inc(
 			return // done
 		}
 
-		rc, err = d.incr(o, key[:], got[4:], rc, inc)
+		rc, err = d.incr(o, stat, key[:], got[4:], rc, inc)
 		return
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.view(tx) // lookup only
 	} else {
-		err = d.b.Update(tx) // changes required
+		err = d.update(tx) // changes required
 	}
 
 	return
 }
 
-func (d *driveCXDS) del(rc uint32, vol int) {
-
-	d.mx.Lock()
-	defer d.mx.Unlock()
-
-	if rc > 0 {
-		d.amountUsed--
-		d.volumeUsed -= vol
-	}
-
-	d.amountAll--
-	d.volumeAll -= vol
-}
-
 // Del deletes value unconditionally
 func (d *driveCXDS) Del(
 	key cipher.SHA256,
@@ -450,23 +420,17 @@ func (d *driveCXDS) Del(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(o *bolt.Bucket, stat *driveStat) (err error) {
 
-		var (
-			o   = tx.Bucket(objsBucket)
-			got = o.Get(key[:])
-		)
+		var got = o.Get(key[:])
 
 		if len(got) == 0 {
 			return // not found
 		}
 
-		if err = o.Delete(key[:]); err != nil {
-			return
-		}
+		stat.del(getRefsCount(got), len(got)-4)
 
-		d.del(getRefsCount(got), len(got)-4)
-		return // nil
+		return o.Delete(key[:])
 	})
 
 	return
@@ -509,12 +473,12 @@ func (d *driveCXDS) IterateDel(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(o *bolt.Bucket, stat *driveStat) (err error) {
 
 		var (
 			key cipher.SHA256
 			rc  uint32
-			c   = tx.Bucket(objsBucket).Cursor()
+			c   = o.Cursor()
 			del bool
 		)
 
@@ -535,11 +499,11 @@ func (d *driveCXDS) IterateDel(
 			}
 
 			if del == true {
+				stat.del(rc, len(v)-4)
+
 				if err = c.Delete(); err != nil {
 					return
 				}
-
-				d.del(rc, len(v)-4) // stat
 			}
 
 			incSlice(key[:]) // next
@@ -554,28 +518,20 @@ func (d *driveCXDS) IterateDel(
 
 // Amount of objects
 func (d *driveCXDS) Amount() (all, used int) {
-	d.mx.Lock()
-	defer d.mx.Unlock()
+	var stat = d.stat()
 
-	return d.amountAll, d.amountUsed
+	return int(stat.amountAll), int(stat.amountUsed)
 }
 
 // Volume of objects (only values)
 func (d *driveCXDS) Volume() (all, used int) {
-	d.mx.Lock()
-	defer d.mx.Unlock()
+	var stat = d.stat()
 
-	return d.volumeAll, d.volumeUsed
+	return int(stat.volumeAll), int(stat.volumeUsed)
 }
 
 // Close DB
 func (d *driveCXDS) Close() (err error) {
-
-	if err = d.saveStat(); err != nil && err != bolt.ErrDatabaseNotOpen {
-		d.b.Close() // drop error
-		return
-	}
-
 	return d.b.Close()
 }
 
-- 
2.43.0


From 723541b0a5c5b7945e4cde29cbd4e5689bfe43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 08/96] fix: IterateDel of drive CXDS must end after the
 greatest key

The key wrapped around and the iteration started over for ever.
---
 data/cxds/cxds.go  | 10 ++++++----
 data/cxds/drive.go |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..a09fef7 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
@@ -64,14 +64,16 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice; it returns false, if
+// there is no next value (all bytes was 0xff)
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 8392d26..e7ccdf3 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -506,7 +506,9 @@ func (d *driveCXDS) IterateDel(
 				}
 			}
 
-			incSlice(key[:]) // next
+			if incSlice(key[:]) == false { // next
+				return // the last possible key
+			}
 		}
 
 		return
-- 
2.43.0


From 758fc92a7bb88b4b0c19a2e1bc32f2c6a7db751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 09/96] fix: a DB file whose creation was interrupted must be
 opened

A crash after the file had been created, but before the meta information
was stored, made it impossible to open the CXDS and the IdxDB.
---
 data/cxds/drive.go  |  7 ++++---
 data/idxdb/drive.go | 13 ++++---------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index e7ccdf3..c95e5aa 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -95,9 +95,10 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 		if info == nil {
 
-			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// if the file contains objects without the meta info,
+			// then this DB file seems outdated (version 0); an
+			// empty one is new, or its creation was interrupted
+			if tx.Bucket(objsBucket) != nil {
 				return ErrMissingMetaInfo // report
 			}
 
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..f4a0d89 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -2,7 +2,6 @@ package idxdb
 
 import (
 	"encoding/binary"
-	"os"
 	"time"
 
 	"github.com/boltdb/bolt"
@@ -26,11 +25,6 @@ type driveDB struct {
 // keeps its data on drive
 func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 
-	var created bool // true if db file has been created
-
-	_, err = os.Stat(fileName)
-	created = os.IsNotExist(err) // set the created var
-
 	var b *bolt.DB
 
 	b, err = bolt.Open(fileName, 0644, &bolt.Options{
@@ -48,9 +42,10 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 
 		if info == nil {
 
-			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// if the file contains feeds without the meta info,
+			// then this DB file seems outdated (version 0); an
+			// empty one is new, or its creation was interrupted
+			if tx.Bucket(feedsBucket) != nil {
 				return ErrMissingMetaInfo // report
 			}
 
-- 
2.43.0


From 387c73b4b8612038b359ef0e46f97e66980f11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 10/96] fix: lengths of feeds, heads and roots must be their
 numbers

BucketN counts nested buckets of all levels, so the number of feeds included
heads; and the statistics of a bucket do not see changes of the transaction.
---
 data/idxdb/drive.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index f4a0d89..55d4a9f 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -174,7 +174,17 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
+}
+
+// bucketLen returns number of keys (and nested buckets) of the
+// bucket itself, including changes of current transaction
+func bucketLen(bk *bolt.Bucket) (length int) {
+	var c = bk.Cursor()
+	for k, _ := c.First(); k != nil; k, _ = c.Next() {
+		length++
+	}
+	return
 }
 
 type driveHeads struct {
@@ -246,7 +256,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveRoots struct {
@@ -396,7 +406,7 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return bucketLen(d.bk)
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From ba5a4e3e802f5edd73c66758106f6b39593b8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 11/96] fix: iterations of IdxDB must end after the greatest
 key

The key wrapped around and the iteration started over for ever.
---
 data/idxdb/drive.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 55d4a9f..4cbd719 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -141,21 +141,25 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 			}
 			return
 		}
-		incSlice(pk[:])
+		if incSlice(pk[:]) == false {
+			return // the last possible feed
+		}
 	}
 	return
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice; it returns false, if
+// there is no next value (all bytes was 0xff)
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
 
 // Has performs presence check
@@ -289,7 +293,10 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // the last possible seq
+		}
+
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From 2d5c6c2a49d3a7fd0668149d90971453bc0e6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 12/96] fix: wanted and filling items must not stop the
 cleaning of the cache

---
 skyobject/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..8dada48 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -338,11 +338,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
-- 
2.43.0


From cc87945d62465fb95a3fe4d340e41e40e37571c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 13/96] fix: cleaning of the cache must not delete an item
 twice

---
 skyobject/cache.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 8dada48..93161de 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -360,12 +360,9 @@ func (c *Cache) cleanDown(vol int) (err error) {
 
 	if c.amount+1 > c.c.conf.CacheMaxAmount {
 
-		var (
-			i  int       // to reduce the rank slice
-			ri *rankItem // for the range (we need the i)
-		)
+		var deleted int // to reduce the rank slice
 
-		for i, ri = range rank {
+		for i, ri := range rank {
 
 			if c.amount < c.amountc { // actually, `amount + 1 == ...`
 				break
@@ -377,10 +374,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 			}
 
 			rank[i].it = nil // GC
+			deleted++
 
 		}
 
-		rank = rank[i:] // shift
+		rank = rank[deleted:] // shift
 
 	}
 
-- 
2.43.0


From 6b2866fa0db197aa17f48138809c10a1c41b019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 14/96] fix: Want of a cached object must increment its
 references

---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 93161de..73c07a3 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1039,6 +1039,7 @@ func (c *Cache) Want(
 
 		// regular item in the cache
 
+		it.cc += inc
 		it.fc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
-- 
2.43.0


From 62c4cd93577c2db7f77acb42005cd076520ab0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 15/96] fix: Inc of an object that is not cached must return
 its references

---
 skyobject/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 73c07a3..6349a5e 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -954,7 +954,8 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc)
+	err = c.putItem(key, val, rc)
 	return
 
 }
-- 
2.43.0


From cb6f8e1398b0e65d3219832583dd7a274b2f240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 16/96] fix: closing the cache must not fail because of wanted
 objects

---
 skyobject/cache.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 6349a5e..14e969e 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -262,12 +262,10 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
+		// a wanted item is not received yet, and it
+		// has not references in DB
 		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
-			it.fwant = nil
+			continue
 		}
 
 		it.cc -= it.fc // remove all fincs
-- 
2.43.0


From 11cc2315c5eac4c815e360cb5be89ceeb374811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 17/96] fix: Finc must not leave a rejected item in the cache

---
 skyobject/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 14e969e..0e8ae03 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1219,5 +1219,10 @@ func (c *Cache) Finc(
 	// incItem removes it
 
 	_, err = c.incItem(key, inc, it) // in db
+
+	// a filling item without value is not needed anymore
+	if it.fc == 0 && it.isWanted() == false && len(it.val) == 0 {
+		delete(c.is, key)
+	}
 	return
 }
-- 
2.43.0


From ebb403610afc98106e9bc74d71527adb404a876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 18/96] fix: the least recently used registry must be dropped

---
 skyobject/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 0e8ae03..401d76a 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -178,10 +178,12 @@ func (c *Cache) addRegistryToCache(r *registry.Registry) {
 		var (
 			tormr registry.RegistryRef // reference
 			tormp cachePoints          // points
+			first = true               // first look
 		)
 
 		for rr, ir := range c.rs {
-			if ir.cachePoints > tormp {
+			if first == true || ir.cachePoints < tormp {
+				first = false
 				tormr = rr
 				tormp = ir.cachePoints
 			}
-- 
2.43.0


From 8549b2e5b8fd5afce13b7b47fe5673270f6b31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 19/96] fix: zero CacheRegistries must turn off caching of
 registries

---
 skyobject/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 401d76a..84a3e73 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -247,7 +247,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
-- 
2.43.0


From d76af5ce2d6f794af9e6c7b25c6c26622b0d2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 20/96] fix: an item that is not cached must not stay in the
 cache

---
 skyobject/cache.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 84a3e73..81afd05 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -762,6 +762,7 @@ func (c *Cache) setWanted(
 	it.fc += wincs // incs of fillers (of wanters)
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.dropBlank(key, it)
 	return
 }
 
@@ -1089,9 +1090,17 @@ func (c *Cache) Want(
 	c.is[key] = it
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.dropBlank(key, it)
 	return
 }
 
+// drop item that is not wanted, not filling and not cached
+func (c *Cache) dropBlank(key cipher.SHA256, it *item) {
+	if it.isWanted() == false && it.fc == 0 && len(it.val) == 0 {
+		delete(c.is, key)
+	}
+}
+
 // Unwant used to unsibscribe after the Want, if,
 // by some reasons, the object is not wanted anymore
 func (c *Cache) Unwant(
@@ -1223,8 +1232,6 @@ func (c *Cache) Finc(
 	_, err = c.incItem(key, inc, it) // in db
 
 	// a filling item without value is not needed anymore
-	if it.fc == 0 && it.isWanted() == false && len(it.val) == 0 {
-		delete(c.is, key)
-	}
+	c.dropBlank(key, it)
 	return
 }
-- 
2.43.0


From 240000195d9bab29fac6cf59e7ba719d23945112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 21/96] fix: SetWanted must not panic if nobody holds the
 object

---
 skyobject/cache.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 81afd05..0120f87 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -740,6 +740,20 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// nobody holds the object, just send it
+	if inc+wincs == 0 {
+
+		var obj = Object{key, val, 0, nil}
+
+		for gc := range it.fwant {
+			sendWanted(gc, obj)
+		}
+
+		it.fwant = nil
+		c.dropBlank(key, it)
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From 606b0210a063b2dc334f4aae70c54e0fccae0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 22/96] fix: an empty object must not be cached many times

---
 skyobject/cache.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 0120f87..21345c9 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -426,6 +426,10 @@ func (c *Cache) putItem(
 		return // don't cache stale values
 	}
 
+	if len(val) == 0 {
+		return // an item without value is a filling item
+	}
+
 	switch {
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
@@ -469,6 +473,10 @@ func (c *Cache) putFillingItem(
 		return // don't cache stale values
 	}
 
+	if len(val) == 0 {
+		return // an item without value is a filling item
+	}
+
 	switch {
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
-- 
2.43.0


From 32ef78536a215a8ed50dbcdb35eb70748fb329f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 23/96] fix: AddHead must not drop other heads of the feed

---
 skyobject/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..a2aec1f 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1035,7 +1035,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
-- 
2.43.0


From 9a2d71c3b65a4783138d9fd2a331affb32e3cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 24/96] fix: the active head must be the head with the latest
 last root

---
 skyobject/index.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index a2aec1f..0dd58b0 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -32,11 +32,22 @@ func (i *indexHeads) setActive() {
 	i.activet = 0
 	i.activen = 0
 
+	var found bool // at least one
+
 	for nonce, dr := range i.h {
 
-		if i.activet < dr.Time {
+		if dr == nil {
+			continue // blank head
+		}
+
+		// choose the lesser nonce if timestamps are equal
+
+		if found == false || i.activet < dr.Time ||
+			(i.activet == dr.Time && nonce < i.activen) {
+
 			i.activet = dr.Time
 			i.activen = nonce
+			found = true
 		}
 
 	}
@@ -106,13 +117,6 @@ func (i *Index) load(c *Container) (err error) {
 
 				feedMap.h[nonce] = ir // head (or nil)
 
-				if ir != nil && feedMap.activet < ir.Time {
-
-					feedMap.activet = ir.Time // last timestamp of active feeds
-					feedMap.activen = nonce   // active head (nonce)
-
-				}
-
 				return
 			})
 
@@ -120,6 +124,8 @@ func (i *Index) load(c *Container) (err error) {
 				return
 			}
 
+			feedMap.setActive()
+
 			i.feeds[pk] = feedMap
 
 			return
@@ -405,11 +411,7 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -427,11 +429,7 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -708,6 +706,7 @@ func (i *Index) delHead(
 	// delete from the Index
 
 	delete(hs.h, nonce)
+	hs.setActive()
 
 	return
 
@@ -839,8 +838,8 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	// cahnge active head if the Root is last
+	if replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From 9a6edd95f241d26d3fef03e62ad827fd00d78ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 25/96] fix: an older root must not replace the last one

---
 skyobject/index.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 0dd58b0..054d261 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -398,16 +398,16 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
-	if ir != nil && r.Seq < ir.Seq {
+	// add to the Index
+
+	var hs = i.feeds[r.Pub]
+
+	if last := hs.h[r.Nonce]; last != nil && r.Seq < last.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
 		return
 	}
 
-	// add to the Index
-
-	var hs = i.feeds[r.Pub]
-
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-- 
2.43.0


From 530fd25e2e6df1e9ac3ce683d7d321386e96a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 26/96] fix: a received root must belong to the feed it is
 signed for

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index 054d261..3d5656a 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -266,6 +266,10 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	if r.Pub != pk {
+		return nil, errors.New("the Root belongs to another feed")
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From 320d4c79c73eb612d12fc0c57130161b00442a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 27/96] fix: LastRoot must return an error if the root can not
 be read

---
 skyobject/container.go | 5 ++++-
 skyobject/index.go     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..f9c1166 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -318,7 +318,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return
+	}
+
 	r.Hash = hash
 	return
 }
diff --git a/skyobject/index.go b/skyobject/index.go
index 3d5656a..3904dd9 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -560,7 +560,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From dcfa3d4cb1bbb3d4db927876ea8ad0c5fc1519e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 28/96] fix: a closed container must not leave goroutines

---
 skyobject/container.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index f9c1166..b818096 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -62,8 +62,15 @@ func NewContainer(conf *Config) (c *Container, err error) {
 
 	defer func() {
 		if err != nil {
-			c.db.Close()         // ignore error
-			c.Cache.stat.Close() // release resources
+			c.db.Close() // ignore error
+
+			// release resources
+			if c.Cache.stat != nil {
+				c.Cache.stat.Close()
+			}
+			if c.Index.stat != nil {
+				c.Index.stat.Close()
+			}
 		}
 	}()
 
@@ -357,6 +364,8 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	c.Index.Close()
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
-- 
2.43.0


From e7d64abe42357bad3c1749419c9c9cdcdc41ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 29/96] fix: statistics of a blank head

---
 skyobject/stat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From b16953372d0dc11de46df75eaea923de8b115310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 30/96] fix: a Root with blank references must be deleted
 entirely

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index 3904dd9..04b7e30 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -889,6 +889,10 @@ func (i *Index) delPackWalkFunc(
 		err error, //          : a DB error
 	) {
 
+		if hash == (cipher.SHA256{}) {
+			return // blank reference
+		}
+
 		var (
 			rc  int
 			val []byte
-- 
2.43.0


From 8996b00f07cfc3f2e430e3d818e3cc74bb0b6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 31/96] fix: deleting must not go through objects that are used
 by fillers

---
 skyobject/cache.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 21345c9..17f2a4d 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -552,7 +552,10 @@ func (c *Cache) getFilling(
 
 // like the Get, but don't put item into the
 // cache if it's not in the cache and don't
-// touch the item
+// touch the item; and the rc is not 'hard', it
+// includes incs of fillers, because an object
+// that held by a filler only still has its
+// subtree
 func (c *Cache) getNoCache(
 	key cipher.SHA256,
 	inc int,
@@ -575,20 +578,21 @@ func (c *Cache) getNoCache(
 		// nothing wrong with caching a filling item
 
 		if it.isFilling() == true {
-			return c.getFilling(key, inc, it)
+			val, rc, err = c.getFilling(key, inc, it)
+			rc += it.fc // with incs of fillers
+			return
 		}
 
-		// the delete below can clean the val field
-		val = it.val
+		// the delete below can clean the fields
+		val, rc = it.val, incr(it.cc, inc)
 
 		// remove item if it's cc is zero
-		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it)
+		if it.cc = rc; it.cc == 0 {
+			err = c.delete(key, it)
 		} else {
 			c.stat.addCacheGet(inc) // effective cache get
 		}
 
-		rc = it.cc - it.fc // hard rc
 		return
 	}
 
-- 
2.43.0


From 24991aa280b52eb6b90073fcf600d66ddf64bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 32/96] fix: seq, prev and time of a saved Root must continue
 the chain

---
 skyobject/unpack.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..8cf9eca 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -268,12 +268,14 @@ func (i *Index) saveRoot(
 		var (
 			lastSeq  uint64
 			lastHash cipher.SHA256
+			lastTime int64
 		)
 
 		// get last
 		err = roots.Descend(func(dr *data.Root) (err error) {
 			lastSeq = dr.Seq
 			lastHash = dr.Hash
+			lastTime = dr.Time
 			return data.ErrStopIteration // enough
 		})
 
@@ -284,11 +286,16 @@ func (i *Index) saveRoot(
 		if lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
 			r.Prev = lastHash
+		} else {
+			r.Seq = 0 // first Root of the head
+			r.Prev = cipher.SHA256{}
 		}
 
-		// else -> 0 and blank
+		// the clock can be moved back
 
-		r.Time = time.Now().UnixNano()
+		if r.Time = time.Now().UnixNano(); r.Time < lastTime {
+			r.Time = lastTime
+		}
 
 		// hash of the Root
 
-- 
2.43.0


From b695f9cc913faf989d6d53c2105fbd369752de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 33/96] fix: a Root must be signed by owner of the feed

---
 skyobject/unpack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 8cf9eca..3264622 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -111,6 +111,10 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return errors.New("zero Nonce field of the Root")
 	}
 
+	if cipher.PubKeyFromSecKey(up.sk) != r.Pub {
+		return errors.New("secret key of another feed")
+	}
+
 	// check out Registry
 
 	if rr := up.Registry().Reference(); r.Reg == (registry.RegistryRef{}) {
-- 
2.43.0


From 4c1924a42a40569c82eda31316a81fe726996a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 34/96] fix: objects of a Root must be saved before its record

---
 skyobject/unpack.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 3264622..6059433 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -202,22 +202,15 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return data.ErrNoSuchFeed
 	}
 
-	// save into Index and IdxDB
-	var val []byte
-
-	if val, err = c.Index.saveRoot(up, r); err != nil {
-		return
-	}
-
-	// save the Root in CXDS
+	// save registry
 
-	if err = up.Set(r.Hash, val); err != nil {
+	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
 		return
 	}
 
-	// save registry
+	// save into Index, IdxDB and CXDS
 
-	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
+	if err = c.Index.saveRoot(up, r); err != nil {
 		return
 	}
 
@@ -249,14 +242,12 @@ func (i *Index) saveRoot(
 	up *Unpack,
 	r *registry.Root,
 ) (
-	val []byte,
 	err error,
 ) {
 
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	// val []byte --> encoded Root
 	var dr = new(data.Root)
 
 	err = i.c.db.IdxDB().Tx(func(fs data.Feeds) (err error) {
@@ -303,7 +294,7 @@ func (i *Index) saveRoot(
 
 		// hash of the Root
 
-		val = r.Encode()
+		var val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
 		r.IsFull = true
 
@@ -319,6 +310,13 @@ func (i *Index) saveRoot(
 		dr.Sig = r.Sig
 		dr.Time = r.Time
 
+		// save the Root in CXDS first, the IdxDB must not
+		// refer to an object that doesn't exist
+
+		if err = up.Set(r.Hash, val); err != nil {
+			return
+		}
+
 		return roots.Set(dr) // save
 
 	})
-- 
2.43.0


From cca6fe31060d412f1745d7bc935b0fb880da5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 35/96] fix: Save must count every reference of saved objects
 once

---
 skyobject/unpack.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 6059433..8981343 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -47,7 +47,29 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 	}
 
 	ui.inc++
-	ui.created = (rc == 1)
+
+	if rc == 1 {
+		ui.created = true
+	}
+
+	return
+}
+
+// increment an object that already exists
+func (u *Unpack) incr(key cipher.SHA256, ui *unpackItem) (err error) {
+
+	var rc int
+	if rc, err = u.c.Inc(key, 1); err != nil {
+		return
+	}
+
+	ui.inc++
+
+	// nobody else holds the object, thus nobody
+	// holds its subtree
+	if rc == 1 {
+		ui.created = true
+	}
 
 	return
 }
@@ -160,14 +182,9 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			if ok == false {
 				// this object was not created, then it already
 				// exists in the CXDS, and we have to increment
-				// rc of the object
-
-				if _, err = c.Inc(hash, 1); err != nil {
-					return
-				}
-				up.m[hash] = &unpackItem{inc: 1, dec: 1} // for Close
+				// rc of the object (see below)
 
-				return // false, nil
+				ui = new(unpackItem)
 			}
 
 			// here we reduce the ui.inc; if end-user saves an
@@ -183,8 +200,18 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			// for every value (if the difference is not zero) to make
 			// values in CXDS actual
 
+			if ui.inc == ui.dec {
+				// saved less times then used
+				if err = up.incr(hash, ui); err != nil {
+					return
+				}
+				up.m[hash] = ui // for Close
+			}
+
 			ui.dec++ // used
-			deepper = ui.created
+
+			// subtree of an object is counted once
+			deepper = ui.created && ui.dec == 1
 			return
 
 		})
-- 
2.43.0


From 9fd662116b0d40c17620fbfab2d638349216da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 36/96] fix: objects of an Unpack must not be treated as
 objects of a saved Root

---
 skyobject/cache.go     | 131 +++++++++++++++++++++++++++++++++++++++--
 skyobject/container.go |   3 +
 skyobject/unpack.go    |  50 +++++++++++-----
 3 files changed, 164 insertions(+), 20 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 17f2a4d..593d765 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -112,6 +112,8 @@ type Cache struct {
 	is map[cipher.SHA256]*item
 	rs map[registry.RegistryRef]*itemRegistry
 
+	us map[cipher.SHA256]int // incs of unsaved objects (see Unpack)
+
 	stat *cxdsStat
 
 	closeo sync.Once
@@ -137,6 +139,7 @@ func (c *Container) initCache() {
 	c.Cache.is = make(map[cipher.SHA256]*item, c.conf.CacheMaxAmount)
 	c.Cache.rs = make(map[registry.RegistryRef]*itemRegistry,
 		c.conf.CacheRegistries)
+	c.Cache.us = make(map[cipher.SHA256]int)
 
 	c.Cache.stat = newCxdsStat(c.conf.RollAvgSamples)
 }
@@ -778,7 +781,7 @@ func (c *Cache) setWanted(
 	rc = int(urc) - (wincs + it.fc) // hard rc
 
 	// send hard rc to wanters
-	var obj = Object{key, val, rc, nil}
+	var obj = Object{key, val, rc - c.us[key], nil}
 
 	for gc := range it.fwant {
 		sendWanted(gc, obj)
@@ -836,6 +839,19 @@ func (c *Cache) Set(
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	return c.set(key, val, inc)
+}
+
+// under lock
+func (c *Cache) set(
+	key cipher.SHA256,
+	val []byte,
+	inc int,
+) (
+	rc int,
+	err error,
+) {
+
 	var it, ok = c.is[key]
 
 	if ok == true {
@@ -1002,6 +1018,113 @@ func (c *Cache) Inc(
 	return c.inc(key, inc)
 }
 
+//
+// saving related methods
+//
+
+// The references that an Unpack adds are not references of
+// a Root until the Save. If nobody except Unpacks (and fillers)
+// holds an object, then there are not guarantees that subtree
+// of the object will be kept
+
+// setUnsaved is Set for the Unpack. The alone reply is
+// true if the object is not a part of a Root
+func (c *Cache) setUnsaved(
+	key cipher.SHA256, // :
+	val []byte, //        :
+) (
+	alone bool, //        :
+	err error, //         :
+) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	c.us[key]++ // before, the set can send the object to fillers
+
+	var rc int
+	if rc, err = c.set(key, val, 1); err != nil {
+		c.doneUnsaved(key, 1)
+		return
+	}
+
+	alone = (rc <= c.us[key])
+	return
+}
+
+// under lock
+func (c *Cache) doneUnsaved(key cipher.SHA256, inc int) {
+	if c.us[key] -= inc; c.us[key] <= 0 {
+		delete(c.us, key)
+	}
+}
+
+// incUnsaved increments references of an existing object.
+// See setUnsaved for details
+func (c *Cache) incUnsaved(
+	key cipher.SHA256, // :
+) (
+	alone bool, //        :
+	err error, //         :
+) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	var rc int
+	if rc, err = c.inc(key, 1); err != nil {
+		return
+	}
+
+	c.us[key]++
+	alone = (rc <= c.us[key])
+	return
+}
+
+// isAlone returns true if the object is
+// not a part of a Root
+func (c *Cache) isAlone(
+	key cipher.SHA256, // :
+) (
+	alone bool, //        :
+	err error, //         :
+) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	var rc int
+	if rc, err = c.inc(key, 0); err != nil {
+		return
+	}
+
+	alone = (rc <= c.us[key])
+	return
+}
+
+// saved turns references of an Unpack to be references
+// of a Root, rejecting references that are not used
+func (c *Cache) saved(
+	key cipher.SHA256, // :
+	inc int, //           : added references
+	used int, //          : used references
+) (
+	err error, //         :
+) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	if used != inc {
+		if _, err = c.inc(key, used-inc); err != nil {
+			return
+		}
+	}
+
+	c.doneUnsaved(key, inc)
+	return
+}
+
 //
 // filling related methods
 //
@@ -1060,7 +1183,7 @@ func (c *Cache) Want(
 			// subtract the inc from it to make it real hard
 
 			it.fc += inc
-			sendWanted(gc, Object{key, val, rc - inc, nil})
+			sendWanted(gc, Object{key, val, rc - inc - c.us[key], nil})
 
 			return
 		}
@@ -1069,7 +1192,7 @@ func (c *Cache) Want(
 
 		it.cc += inc
 		it.fc += inc
-		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
+		sendWanted(gc, Object{key, it.val, it.cc - it.fc - c.us[key], nil})
 
 		if inc == 0 {
 			c.stat.addReadingCacheRequest() // effective
@@ -1107,7 +1230,7 @@ func (c *Cache) Want(
 
 	// found
 
-	sendWanted(gc, Object{key, val, int(urc) - inc, nil})
+	sendWanted(gc, Object{key, val, int(urc) - inc - c.us[key], nil})
 
 	// create filling item in the cache
 
diff --git a/skyobject/container.go b/skyobject/container.go
index b818096..02d44a8 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -3,6 +3,7 @@ package skyobject
 import (
 	"log"
 	"path/filepath"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -23,6 +24,8 @@ type Container struct {
 
 	db *data.DB // database
 
+	savemx sync.Mutex // lock Save
+
 	conf *Config // configurations
 
 	// human readable (used by node for debugging)
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 8981343..664c213 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -34,8 +34,8 @@ func (u *Unpack) reset() {
 // Set value
 func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
-	var rc int
-	if rc, err = u.c.Set(key, val, 1); err != nil {
+	var alone bool
+	if alone, err = u.c.setUnsaved(key, val); err != nil {
 		return
 	}
 
@@ -48,7 +48,7 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
 	ui.inc++
 
-	if rc == 1 {
+	if alone == true {
 		ui.created = true
 	}
 
@@ -58,8 +58,8 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 // increment an object that already exists
 func (u *Unpack) incr(key cipher.SHA256, ui *unpackItem) (err error) {
 
-	var rc int
-	if rc, err = u.c.Inc(key, 1); err != nil {
+	var alone bool
+	if alone, err = u.c.incUnsaved(key); err != nil {
 		return
 	}
 
@@ -67,13 +67,31 @@ func (u *Unpack) incr(key cipher.SHA256, ui *unpackItem) (err error) {
 
 	// nobody else holds the object, thus nobody
 	// holds its subtree
-	if rc == 1 {
+	if alone == true {
 		ui.created = true
 	}
 
 	return
 }
 
+// the subtree should be walked if this Root
+// is first Root with the object
+func (u *Unpack) goDeepper(
+	key cipher.SHA256,
+	ui *unpackItem,
+) (
+	deepper bool,
+	err error,
+) {
+
+	if ui.created == false || ui.dec != 1 {
+		return
+	}
+
+	// the same object can be already saved by another Unpack
+	return u.c.isAlone(key)
+}
+
 // Add value
 func (u *Unpack) Add(val []byte) (key cipher.SHA256, err error) {
 
@@ -153,6 +171,11 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 	}
 
+	// one by one, because the saves count subtrees
+
+	c.savemx.Lock()
+	defer c.savemx.Unlock()
+
 	// walk the Root first
 
 	defer func() {
@@ -211,8 +234,7 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			ui.dec++ // used
 
 			// subtree of an object is counted once
-			deepper = ui.created && ui.dec == 1
-			return
+			return up.goDeepper(hash, ui)
 
 		})
 
@@ -249,13 +271,9 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			ui.dec++
 		}
 
-		var inc = ui.dec - ui.inc
-
-		if inc < 0 {
-			// decrement
-			if _, err = c.Inc(key, inc); err != nil {
-				return // leave the CXDS broken if an error occurred
-			}
+		// decrement unused
+		if err = c.saved(key, ui.inc, ui.dec); err != nil {
+			return // leave the CXDS broken if an error occurred
 		}
 
 		delete(up.m, key) // saved
@@ -384,7 +402,7 @@ func (c *Container) NewRoot(
 func (u *Unpack) Close() (err error) {
 	for key, ui := range u.m {
 		if ui.inc > 0 {
-			if _, err = u.c.Inc(key, -ui.inc); err != nil {
+			if err = u.c.saved(key, ui.inc, 0); err != nil {
 				return
 			}
 		}
-- 
2.43.0


From ad0901b46a4a6a77fbe2ab664963424f594865c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 37/96] fix: arrays and slices of references must be walked
 through

---
 skyobject/registry/split.go | 4 ++--
 skyobject/registry/walk.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From fd597c2093ef33ad2c5e739a521842cbff7aaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 38/96] fix: a Filler must respect the limit and terminate
 after a failure

---
 skyobject/fill.go | 70 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..71a0250 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -75,6 +75,7 @@ func (f *Filler) get(
 
 	// requset the object using the rq channel
 	if f.requset(key) == false {
+		err = ErrTerminated
 		return
 	}
 
@@ -140,8 +141,9 @@ func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 func (f *Filler) Fail(err error) {
 	select {
 	case f.errq <- err:
-	case <-f.closeq:
+	default: // already failed
 	}
+	f.terminate() // don't wait other subtrees
 }
 
 //
@@ -178,15 +180,19 @@ func (f *Filler) requset(key cipher.SHA256) (ok bool) {
 	return
 }
 
-// Close terminates the Split walking and waits for
-// goroutines the split creates
-func (f *Filler) Close() {
+func (f *Filler) terminate() {
 	f.closeo.Do(func() {
 		close(f.closeq)
-		f.await.Wait()
 	})
 }
 
+// Close terminates the Split walking and waits for
+// goroutines the split creates
+func (f *Filler) Close() {
+	f.terminate()
+	f.await.Wait()
+}
+
 // Fill given Root returns Filler that fills given
 // Root object. To request objects, the DB doesn't
 // have, given rq channel used. The Fill used by
@@ -253,6 +259,12 @@ func (f *Filler) acquire() (parall bool) {
 
 }
 
+func (f *Filler) release() {
+	if f.limit != nil {
+		<-f.limit
+	}
+}
+
 // Go performs some task dependig on parallelism.
 func (f *Filler) Go(fn func()) {
 
@@ -263,7 +275,7 @@ func (f *Filler) Go(fn func()) {
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+			defer f.release()
 			fn()
 		}()
 
@@ -298,28 +310,19 @@ func (f *Filler) Run() (err error) {
 	}()
 
 	if err = f.getRegistry(); err != nil {
+		select {
+		case err = <-f.errq: // terminated with the error
+		default:
+		}
 		return
 	}
 
-	for _, dr := range f.r.Refs {
-
-		// the closure is data-race protection
-		func(dr registry.Dynamic) {
-			f.Go(func() { dr.Split(f) })
-		}(dr)
-
-	}
-
-	var done = make(chan struct{})
-
-	go func() {
-		f.await.Wait() // wait group
-		close(done)
-	}()
+	f.split()
+	f.await.Wait() // a failure terminates all the goroutines
 
 	select {
 	case err = <-f.errq:
-	case <-done:
+	default:
 		f.r.IsFull = true // full!
 		_, err = f.c.AddRoot(f.r)
 	}
@@ -329,6 +332,29 @@ func (f *Filler) Run() (err error) {
 	return
 }
 
+// split all subtrees of the Root
+func (f *Filler) split() {
+
+	// this goroutine is one of the limited
+
+	f.await.Add(1)
+	defer f.await.Done()
+
+	if f.acquire() == true {
+		defer f.release()
+	}
+
+	for _, dr := range f.r.Refs {
+
+		// the closure is data-race protection
+		func(dr registry.Dynamic) {
+			f.Go(func() { dr.Split(f) })
+		}(dr)
+
+	}
+
+}
+
 func (f *Filler) getRegistry() (err error) {
 
 	if f.r.Reg == (registry.RegistryRef{}) {
-- 
2.43.0


From 7d5de44fcaa1c06bcbb9ade6b660f7eaa5385770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 39/96] fix: a Filler must hold every object it uses and count
 it once

---
 skyobject/fill.go           | 82 ++++++++++++++++++++++++-------------
 skyobject/registry/split.go |  4 +-
 2 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 71a0250..b58abb8 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -51,46 +50,66 @@ func (f *Filler) get(
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
-
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
+	if inc == 0 {
+		// the object is already held by this filler
+		if val, rc, err = f.c.Get(key, 0); err != nil {
+			fatal("DB failure:", err) // fatality
 		}
 		return
 	}
 
-	if err != data.ErrNotFound {
+	// the Want holds the object for this filler
+
+	var gc = make(chan Object, 1) // wait for the object
+
+	if err = f.c.Want(key, gc, inc); err != nil {
 		fatal("DB failure:", err) // fatality
 	}
 
-	err = nil // clear if it's data.ErrNotFound
+	var obj Object
 
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
-
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
+	select {
+	case obj = <-gc: // already have
+	default:
+		if obj, err = f.wait(key, gc); err != nil {
+			return
+		}
+	}
 
-	// requset the object using the rq channel
-	if f.requset(key) == false {
-		err = ErrTerminated
+	if err = obj.Err; err != nil {
 		return
 	}
 
-	select {
-	case obj := <-gc:
-		if err = obj.Err; err != nil {
+	val = obj.Val
+	rc = f.inc(key, obj.RC) // ++
+	return
+}
+
+// request the object and wait for it
+func (f *Filler) wait(
+	key cipher.SHA256,
+	gc chan Object,
+) (
+	obj Object,
+	err error,
+) {
+
+	// requset the object using the rq channel
+	if f.requset(key) == true {
+		select {
+		case obj = <-gc:
 			return
+		case <-f.closeq:
 		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
-		}
-	case <-f.closeq:
+	}
+
+	f.c.Unwant(key, gc) // to be memory safe
+
+	// the object can be received before the Unwant
+
+	select {
+	case obj = <-gc:
+	default:
 		err = ErrTerminated
 	}
 
@@ -234,6 +253,9 @@ func (f *Filler) apply() {
 }
 
 func (f *Filler) reject() {
+	if _, err := f.c.Inc(f.r.Hash, -1); err != nil {
+		panic("DB failure: " + err.Error()) // TODO: handle the error
+	}
 	for key, inc := range f.incs {
 		if err := f.c.Finc(key, -inc); err != nil {
 			panic("DB failure: " + err.Error()) // TODO: handle the error
@@ -298,11 +320,13 @@ func (f *Filler) Run() (err error) {
 		return
 	}
 
-	f.inc(f.r.Hash, 0) // increment
+	var alreadyHave bool // the Root added by someone else
 
 	defer func() {
 		if err != nil {
 			f.r.IsFull = false // reset
+		}
+		if err != nil || alreadyHave == true {
 			f.reject()
 		} else {
 			f.apply()
@@ -324,7 +348,7 @@ func (f *Filler) Run() (err error) {
 	case err = <-f.errq:
 	default:
 		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
+		alreadyHave, err = f.c.AddRoot(f.r)
 	}
 
 	f.Close()
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index d3c3a28..6f395a7 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -87,8 +87,8 @@ func splitSchemaHash(
 		return
 	}
 
-	if rc > 1 {
-		return
+	if rc > 0 {
+		return // the subtree is in DB or in progress
 	}
 
 	// go deepper
-- 
2.43.0


From 1ec777ac9623dbcbeb5329e1977ffe73053cf843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 40/96] fix: a malformed Registry must be an error, not a panic

---
 skyobject/registry/registry.go | 56 +++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..2724b05 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -51,15 +51,69 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	r = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
+		if s, err = decodeSchema(re.Schema); err != nil {
+			return nil, err
+		}
 		r.reg[re.Name] = s
 		r.srf[s.Reference()] = s
 	}
 
+	// the Registry can be received from a remote peer
+
+	for _, s = range r.reg {
+		if err = r.validateSchema(s, make(map[Schema]struct{})); err != nil {
+			return nil, err
+		}
+	}
+
 	r.finialize()
 	return
 }
 
+// validateSchema checks that all schemas the given schema depends
+// on are known and the given schema doesn't contain itself (it's
+// possible to refer to itself, but it's impossible to contain)
+func (r *Registry) validateSchema(
+	s Schema, //                    : schema to check
+	parents map[Schema]struct{}, // : schemas that contains the schema
+) (
+	err error,
+) {
+
+	if s.IsReference() == true {
+		if s.ReferenceType() != ReferenceTypeDynamic {
+			_, err = r.schemaByName(s.Elem().Name())
+		}
+		return
+	}
+
+	if s.IsRegistered() == true && len(parents) > 0 {
+		if s, err = r.schemaByName(s.Name()); err != nil {
+			return
+		}
+	}
+
+	if _, ok := parents[s]; ok == true {
+		return fmt.Errorf("schema %q contains itself", s.Name())
+	}
+
+	parents[s] = struct{}{}
+	defer delete(parents, s)
+
+	switch s.Kind() {
+	case reflect.Array, reflect.Slice:
+		return r.validateSchema(s.Elem(), parents)
+	case reflect.Struct:
+		for _, f := range s.Fields() {
+			if err = r.validateSchema(f.Schema(), parents); err != nil {
+				return
+			}
+		}
+	}
+
+	return
+}
+
 // NewRegistry creates filled up Registry using provided
 // function. For example
 //
-- 
2.43.0


From 12b655f54d99578a30ed5c46b0d49700009ab023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 41/96] fix: huge arrays of empty elements must not take
 forever

---
 skyobject/registry/schema_helpers.go | 4 ++--
 skyobject/registry/split.go          | 4 ++++
 skyobject/registry/walk.go           | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/schema_helpers.go b/skyobject/registry/schema_helpers.go
index a4e6538..4c9444f 100644
--- a/skyobject/registry/schema_helpers.go
+++ b/skyobject/registry/schema_helpers.go
@@ -38,8 +38,8 @@ func schemaArraySliceSize(el Schema, l, shift int, p []byte) (n int,
 				err = ErrInvalidSchemaOrData
 				return
 			}
-			if m, err = el.Size(p[n:]); err != nil {
-				return
+			if m, err = el.Size(p[n:]); err != nil || m == 0 {
+				return // all elements have zero size if the m is zero
 			}
 			n += m
 		}
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 6f395a7..ba5b904 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -268,6 +268,10 @@ func splitArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // elements of the zero size have not references
+		}
+
 		// split
 		splitSchemaDataAsync(s, el, val[shift:shift+m])
 
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..3c79831 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -204,6 +204,10 @@ func walkArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // elements of the zero size have not references
+		}
+
 		// if we are here, then the el contains references
 		// and we don't need to call el.HasReferences(),
 		// we just walk the element
-- 
2.43.0


From c62e2dd710aa027343cbf4b19b0aee7d588b0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 42/96] fix: the check of a Registry must look every schema
 once

---
 skyobject/registry/registry.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2724b05..ab4c949 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -61,7 +61,7 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	// the Registry can be received from a remote peer
 
 	for _, s = range r.reg {
-		if err = r.validateSchema(s, make(map[Schema]struct{})); err != nil {
+		if err = r.validateSchema(s, make(map[Schema]bool), 0); err != nil {
 			return nil, err
 		}
 	}
@@ -74,8 +74,9 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 // on are known and the given schema doesn't contain itself (it's
 // possible to refer to itself, but it's impossible to contain)
 func (r *Registry) validateSchema(
-	s Schema, //                    : schema to check
-	parents map[Schema]struct{}, // : schemas that contains the schema
+	s Schema, //              : schema to check
+	looks map[Schema]bool, // : true if it contains the schema, false if checked
+	level int, //             : level deep
 ) (
 	err error,
 ) {
@@ -87,25 +88,28 @@ func (r *Registry) validateSchema(
 		return
 	}
 
-	if s.IsRegistered() == true && len(parents) > 0 {
+	if s.IsRegistered() == true && level > 0 {
 		if s, err = r.schemaByName(s.Name()); err != nil {
 			return
 		}
 	}
 
-	if _, ok := parents[s]; ok == true {
-		return fmt.Errorf("schema %q contains itself", s.Name())
+	if contains, ok := looks[s]; ok == true {
+		if contains == true {
+			err = fmt.Errorf("schema %q contains itself", s.Name())
+		}
+		return
 	}
 
-	parents[s] = struct{}{}
-	defer delete(parents, s)
+	looks[s] = true
+	defer func() { looks[s] = false }()
 
 	switch s.Kind() {
 	case reflect.Array, reflect.Slice:
-		return r.validateSchema(s.Elem(), parents)
+		return r.validateSchema(s.Elem(), looks, level+1)
 	case reflect.Struct:
 		for _, f := range s.Fields() {
-			if err = r.validateSchema(f.Schema(), parents); err != nil {
+			if err = r.validateSchema(f.Schema(), looks, level+1); err != nil {
 				return
 			}
 		}
-- 
2.43.0


From fdefe75debd3127ac4a81ecc3cbbfdc3df6e7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 43/96] fix: RemoveRootObjects must not stop at the first gap

---
 cxoutils/cxoutils.go | 88 ++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 501ef27..270b656 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -34,50 +34,82 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 
 		var heads []uint64
 		if heads, err = c.Heads(pk); err != nil {
+			if isRemoved(err) == true {
+				err = nil // not a real error
+				continue
+			}
 			return
 		}
 
-	HeadLoop:
 		for _, nonce := range heads {
-			var seq uint64
-			if seq, err = c.LastRootSeq(pk, nonce); err != nil {
-				err = nil // clear
-				continue  // not a real error
+
+			var seqs []uint64
+			if seqs, err = oldRootObjects(c, pk, nonce, keepLast); err != nil {
+				return
 			}
 
-			if seq < uint64(keepLast) {
-				continue
+			for _, seq := range seqs {
+				if err = c.DelRoot(pk, nonce, seq); isRemoved(err) == true {
+					err = nil // clear error
+				} else if err != nil {
+					return // a failure
+				}
 			}
 
-			var goDown = seq - uint64(keepLast) // positive
+		} // head loop
 
-			for ; goDown > 0; goDown-- {
+	} // feed loop
 
-				if err = c.DelRoot(pk, nonce, goDown); err != nil {
-					if err == data.ErrNotFound {
-						err = nil // clear error
-						continue HeadLoop
-					}
-					return // a failure (CXDS not found error?)
-				}
+	return
+}
 
-			}
+// removed by someone else
+func isRemoved(err error) bool {
+	return err == data.ErrNotFound || err == data.ErrNoSuchHead ||
+		err == data.ErrNoSuchFeed
+}
 
-			// seq = 0 (goDown == 0)
-			if err = c.DelRoot(pk, nonce, 0); err != nil {
-				if err == data.ErrNotFound {
-					err = nil // clear error
-					continue HeadLoop
-				}
+// oldRootObjects returns seq numbers of all Root
+// objects of the head except last n-th
+func oldRootObjects(
+	c *skyobject.Container,
+	pk cipher.PubKey,
+	nonce uint64,
+	keepLast int,
+) (
+	seqs []uint64,
+	err error,
+) {
 
-				return
-			}
+	// the seq numbers can have gaps
 
-			// continue HeadLoop
+	err = c.DB().IdxDB().Tx(func(feeds data.Feeds) (err error) {
 
-		} // head loop
+		var heads data.Heads
+		if heads, err = feeds.Heads(pk); err != nil {
+			return
+		}
 
-	} // feed loop
+		var roots data.Roots
+		if roots, err = heads.Roots(nonce); err != nil {
+			return
+		}
+
+		var kept int
+
+		return roots.Descend(func(dr *data.Root) (err error) {
+			if kept < keepLast {
+				kept++
+				return
+			}
+			seqs = append(seqs, dr.Seq)
+			return
+		})
+	})
+
+	if isRemoved(err) == true {
+		err = nil // not a real error
+	}
 
 	return
 }
-- 
2.43.0


From 9f166c985fb7c5cf707321dfcc54fc4e0197c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 44/96] fix: RemoveObjects must not deadlock with the cache

---
 cxoutils/cxoutils.go | 24 ++++++++++++++++++++----
 skyobject/cache.go   | 24 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 270b656..ae8c689 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -117,13 +117,29 @@ func oldRootObjects(
 // RemoveObjects with rc == 0 from CXDS
 func RemoveObjects(c *skyobject.Container) (err error) {
 
-	var db = c.DB().CXDS()
+	var keys []cipher.SHA256
 
-	err = db.IterateDel(
-		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
-			return (rc == 0) && (c.IsCached(key) == false), nil
+	err = c.DB().CXDS().Iterate(
+		func(key cipher.SHA256, rc uint32, _ []byte) (err error) {
+			if rc == 0 {
+				keys = append(keys, key)
+			}
+			return
 		})
 
+	if err != nil {
+		return
+	}
+
+	// the Container must not be used inside the
+	// iteration, because it locks the CXDS
+
+	for _, key := range keys {
+		if err = c.DelOwnerless(key); err != nil {
+			return
+		}
+	}
+
 	return
 }
 
diff --git a/skyobject/cache.go b/skyobject/cache.go
index 593d765..fdb94e0 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -715,6 +715,30 @@ func (c *Cache) Get(
 	return c.get(key, inc)
 }
 
+// DelOwnerless deletes object from DB if the object has
+// not references and nobody uses it. The method does
+// nothing if the object doesn't exist or should be kept
+func (c *Cache) DelOwnerless(key cipher.SHA256) (err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	// see IsCached
+	if _, ok := c.is[key]; ok == true {
+		return
+	}
+
+	var rc uint32
+	if _, rc, err = c.db().Get(key, 0); err != nil || rc > 0 {
+		if err == data.ErrNotFound {
+			err = nil // already deleted
+		}
+		return
+	}
+
+	return c.db().Del(key)
+}
+
 // never block
 func sendWanted(gc chan<- Object, obj Object) {
 	select {
-- 
2.43.0


From 3f15fc5ea6e4d6c0c5c68343245882db37113550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 45/96] fix: Preview must use objects from DB

---
 skyobject/preview.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..b8265f8 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,8 +47,8 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
-		return // db failure
+	if val, err = p.Pack.Get(key); err == nil || err != data.ErrNotFound {
+		return // found or db failure
 	}
 
 	// not found
-- 
2.43.0


From 125ffe3f6e3f09ed4824feb5bb417f81f4cad55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:05 +0000
Subject: [PATCH 46/96] fix: RootByHash doesn't return a Root that is not in
 the index

---
 skyobject/container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skyobject/container.go b/skyobject/container.go
index 02d44a8..bfa9885 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -357,6 +357,12 @@ func (c *Container) RootByHash(
 		return
 	}
 
+	// another Root with the same seq
+
+	if dr.Hash != hash {
+		return nil, data.ErrNotFound
+	}
+
 	r.Sig = dr.Sig
 	r.IsFull = true
 	return
-- 
2.43.0


From 0a52aa0566a104ed7aa76c797743e8f88503bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:05 +0000
Subject: [PATCH 47/96] fix: Save refuses to continue a head that reached the
 greatest seq

---
 skyobject/unpack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 664c213..dc26148 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -324,7 +324,9 @@ func (i *Index) saveRoot(
 		}
 
 		if lastHash != (cipher.SHA256{}) {
-			r.Seq = lastSeq + 1
+			if r.Seq = lastSeq + 1; r.Seq == 0 {
+				return errors.New("no free seq number in the head")
+			}
 			r.Prev = lastHash
 		} else {
 			r.Seq = 0 // first Root of the head
-- 
2.43.0


From beb6430b99f6a6a603e5c42457a4c89cd3e40067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 48/96] fix: correct references counters of a DB that has not
 been closed

A crash leaves references of a saving, filling or removing that has not
been finished, and loses the references kept by the Cache only. Thus an
object of a live Root could be ownerless, and an object that has been
received by an interrupted filling was taken for a part of a full Root.
---
 data/cxds/drive.go     |  49 +++++++++++-
 skyobject/container.go | 174 +++++++++++++++++++++++++++++++----------
 2 files changed, 181 insertions(+), 42 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index c95e5aa..abf931d 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/boltdb/bolt"
@@ -20,6 +21,8 @@ var (
 	versionKey = []byte("version") // version
 
 	statKey = []byte("stat") // amounts and volumes
+
+	openedKey = []byte("opened") // not closed yet
 )
 
 // statistic of the objects; it's stored in the meta bucket,
@@ -55,6 +58,9 @@ func (d *driveStat) decode(val []byte) (err error) {
 
 type driveCXDS struct {
 	b *bolt.DB
+
+	mx     sync.Mutex
+	unsafe bool // has not been closed properly last time
 }
 
 // NewDriveCXDS opens existing CXDS-database
@@ -68,6 +74,8 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 	_, err = os.Stat(fileName)
 	created = os.IsNotExist(err)
 
+	var unsafe bool // true if the DB has not been closed
+
 	var b *bolt.DB
 	b, err = bolt.Open(fileName, 0644, &bolt.Options{
 		Timeout: time.Millisecond * 500,
@@ -136,6 +144,14 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 			return
 		}
 
+		// mark as opened
+
+		unsafe = (info.Get(openedKey) != nil)
+
+		if err = info.Put(openedKey, []byte{1}); err != nil {
+			return
+		}
+
 		// stat
 
 		var stat driveStat
@@ -164,7 +180,7 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 		return
 	}
 
-	ds = &driveCXDS{b: b} // wrap
+	ds = &driveCXDS{b: b, unsafe: unsafe} // wrap
 	return
 }
 
@@ -533,8 +549,39 @@ func (d *driveCXDS) Volume() (all, used int) {
 	return int(stat.volumeAll), int(stat.volumeUsed)
 }
 
+// IsSafeClosed returns false if the DB has not been closed
+// last time (and SetSafeClosed is not called yet). In this
+// case, all objects are in the DB, but references counters
+// can be different from real ones
+func (d *driveCXDS) IsSafeClosed() (yep bool) {
+	d.mx.Lock()
+	defer d.mx.Unlock()
+
+	return d.unsafe == false
+}
+
+// SetSafeClosed should be called when the
+// references counters have been corrected
+func (d *driveCXDS) SetSafeClosed() {
+	d.mx.Lock()
+	defer d.mx.Unlock()
+
+	d.unsafe = false
+}
+
 // Close DB
 func (d *driveCXDS) Close() (err error) {
+
+	if d.IsSafeClosed() == true {
+
+		// if it fails, then the references counters will
+		// be checked next time, that is not an issue
+
+		d.b.Update(func(tx *bolt.Tx) (err error) {
+			return tx.Bucket(metaBucket).Delete(openedKey)
+		})
+	}
+
 	return d.b.Close()
 }
 
diff --git a/skyobject/container.go b/skyobject/container.go
index bfa9885..f0e3b60 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -82,6 +82,11 @@ func NewContainer(conf *Config) (c *Container, err error) {
 		return
 	}
 
+	// correct references counters after a crash
+	if err = c.recoverRCs(); err != nil {
+		return
+	}
+
 	// initialize cache
 	c.initCache()
 
@@ -143,6 +148,12 @@ func (c *Container) createDB(conf *Config) (err error) {
 	return
 }
 
+// a CXDS that knows has it been closed properly
+type safeCloser interface {
+	IsSafeClosed() (yep bool)
+	SetSafeClosed()
+}
+
 type rcs struct {
 	rc uint32 // saved rc (DB)
 	cc uint32 // correct rc (determined by walking)
@@ -150,9 +161,6 @@ type rcs struct {
 
 type cxdsRCs struct {
 	hr map[cipher.SHA256]rcs // hash -> {rc, actual rc}
-
-	amount uint32 // stat
-	volume uint32 // stat
 }
 
 func (c *Container) getHashRCs() (cr *cxdsRCs, err error) {
@@ -160,11 +168,7 @@ func (c *Container) getHashRCs() (cr *cxdsRCs, err error) {
 	cr.hr = make(map[cipher.SHA256]rcs)
 
 	err = c.db.CXDS().Iterate(
-		func(hash cipher.SHA256, rc uint32, val []byte) (err error) {
-
-			cr.amount++                   // stat
-			cr.volume += uint32(len(val)) // stat
-
+		func(hash cipher.SHA256, rc uint32, _ []byte) (err error) {
 			cr.hr[hash] = rcs{rc: rc}
 			return
 		})
@@ -176,6 +180,86 @@ func (c *Container) getHashRCs() (cr *cxdsRCs, err error) {
 	return
 }
 
+// recoverRCs corrects references counters if the DB has not been
+// closed. In this case, a saving, filling or removing has not been
+// finished, and changes kept by the Cache have been lost
+func (c *Container) recoverRCs() (err error) {
+
+	var sc, ok = c.db.CXDS().(safeCloser)
+
+	if ok == false || sc.IsSafeClosed() == true {
+		return
+	}
+
+	var cr *cxdsRCs
+	if cr, err = c.getHashRCs(); err != nil {
+		return
+	}
+
+	var roots []cipher.SHA256
+	if roots, err = c.allRoots(); err != nil {
+		return
+	}
+
+	for _, hash := range roots {
+		if err = c.initRoot(cr, hash); err != nil {
+			return
+		}
+	}
+
+	for hash, rc := range cr.hr {
+		if rc.rc == rc.cc {
+			continue
+		}
+		if _, err = c.db.CXDS().Inc(hash, int(rc.cc)-int(rc.rc)); err != nil {
+			return
+		}
+	}
+
+	sc.SetSafeClosed()
+	return
+}
+
+// hashes of all Root objects
+func (c *Container) allRoots() (roots []cipher.SHA256, err error) {
+
+	err = c.db.IdxDB().Tx(func(feeds data.Feeds) (err error) {
+
+		return feeds.Iterate(func(pk cipher.PubKey) (err error) {
+
+			var hs data.Heads
+			if hs, err = feeds.Heads(pk); err != nil {
+				return
+			}
+
+			return hs.Iterate(func(nonce uint64) (err error) {
+
+				var rs data.Roots
+				if rs, err = hs.Roots(nonce); err != nil {
+					return
+				}
+
+				return rs.Ascend(func(dr *data.Root) (err error) {
+					roots = append(roots, dr.Hash)
+					return
+				})
+			})
+		})
+	})
+
+	return
+}
+
+// a Pack that uses the DB only
+type dbPack struct {
+	*Pack
+}
+
+func (d *dbPack) Get(key cipher.SHA256) (val []byte, err error) {
+	val, _, err = d.c.db.CXDS().Get(key, 0)
+	return
+}
+
 func (c *Container) getPack(reg *registry.Registry) (pack *Pack) {
 	pack = new(Pack)
 
@@ -186,52 +270,60 @@ func (c *Container) getPack(reg *registry.Registry) (pack *Pack) {
 	return
 }
 
+// count references of given Root; something missing
+// or broken is not a reason to don't open the DB
 func (c *Container) initRoot(cr *cxdsRCs, rootHash cipher.SHA256) (err error) {
 
-	var val []byte
-	if val, _, err = c.Get(rootHash, 0); err != nil {
-		return
-	}
+	var dbErr error // DB failure
 
-	var r *registry.Root
-	if r, err = registry.DecodeRoot(val); err != nil {
+	var get = func(key cipher.SHA256) (val []byte) {
+		val, _, err := c.db.CXDS().Get(key, 0)
+		if err != nil && err != data.ErrNotFound {
+			dbErr = err
+		}
 		return
 	}
 
-	if val, _, err = c.Get(cipher.SHA256(r.Reg), 0); err != nil {
-		return
-	}
+	var (
+		reg *registry.Registry
+		r   *registry.Root
+	)
 
-	var reg *registry.Registry
-	if reg, err = registry.DecodeRegistry(val); err != nil {
-		return
+	if r, err = registry.DecodeRoot(get(rootHash)); err != nil {
+		return dbErr
 	}
 
-	var pack = c.getPack(reg)
+	r.Hash = rootHash
 
-	err = r.Walk(pack,
-		func(
-			hash cipher.SHA256,
-			_ int,
-		) (
-			deepper bool,
-			err error,
-		) {
-
-			var rc, ok = cr.hr[hash]
-			if ok == false {
-				err = data.ErrNotFound
-				return
-			}
-			rc.cc++
-			deepper = rc.cc == 1 // go deepper for first look
-			cr.hr[hash] = rc
-			return
+	if reg, err = registry.DecodeRegistry(get(cipher.SHA256(r.Reg))); err != nil {
+		reg = nil
+	}
 
-		})
+	var walkFunc = func(
+		hash cipher.SHA256, // :
+		_ int, //              :
+	) (
+		deepper bool, //       :
+		err error, //          :
+	) {
+
+		var rc, ok = cr.hr[hash]
+		if ok == false {
+			return // blank or missing
+		}
+		rc.cc++
+		deepper = rc.cc == 1 // go deepper for first look
+		cr.hr[hash] = rc
+		return
+	}
 
-	return
+	if reg == nil {
+		walkFunc(rootHash, 0)
+		return dbErr
+	}
 
+	c.walkRoot(&dbPack{c.getPack(reg)}, r, walkFunc)
+	return dbErr
 }
 
 func (c *Container) checkSize() (err error) {
-- 
2.43.0


From 274a7bea84183fe319eb40f66f2929b51e570ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:49 +0000
Subject: [PATCH 49/96] fix: close a connection once

An error of receiving, an error of the OnConnect callback and the Close,
two of them or the Close called twice closed the same channel twice.
---
 node/conn.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..9ac0361 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -31,6 +31,7 @@ type Conn struct {
 	initq   chan struct{}
 
 	closeq chan struct{}  // signal for all goroutines to exit
+	closeo sync.Once      // close the closeq once
 	await  sync.WaitGroup // wait for all goroutines to exit
 
 	sendq chan<- []byte // channel from factory.Connection
@@ -84,14 +85,14 @@ func (c *Conn) run() {
 	go func() {
 		defer c.await.Done()
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+			c.terminate()
 		}
 	}()
 
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+		c.terminate()
 	}
 
 	// Wait for all groutines to exit.
@@ -398,9 +399,16 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
-// Close the Conn
+// signal for all goroutines to exit
+func (c *Conn) terminate() {
+	c.closeo.Do(func() {
+		close(c.closeq)
+	})
+}
+
+// Close the Conn. It's safe to call the Close many times
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
+	c.terminate()
 	c.await.Wait()
 
 	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
-- 
2.43.0


From 6861c7f7174674bcee814c0b7bf4b179418cacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 50/96] fix: deliver a response once and never block on it

A duplicate response blocked the receiving goroutine, and a response
received after timeout was handled like a message of the peer.
---
 node/conn.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 9ac0361..5a8acee 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -417,8 +417,13 @@ func (c *Conn) Close() (err error) {
 	return nil
 }
 
-func (c *Conn) nextSeq() uint32 {
-	return atomic.AddUint32(&c.seq, 1)
+// never returns zero, since the zero
+// means that a messege is not a response
+func (c *Conn) nextSeq() (seq uint32) {
+	for seq == 0 {
+		seq = atomic.AddUint32(&c.seq, 1)
+	}
+	return
 }
 
 func (c *Conn) encodeMsg(seq, rseq uint32, m msg.Msg) (raw []byte) {
@@ -484,8 +489,11 @@ func (c *Conn) receiveMsg() error {
 			c.n.Debugf(MsgReceivePin, "[%s] receive %T", c.String(), msg)
 
 			// Handle message.
-			if rq, ok := c.isResponse(rseq); ok == true {
-				rq <- msg
+			if rseq != 0 {
+				// A response, that nobody waits for, is ignored.
+				if rq, ok := c.takeRequest(rseq); ok == true {
+					rq <- msg
+				}
 				continue
 			}
 			if err := c.handle(seq, msg); err != nil {
@@ -498,11 +506,15 @@ func (c *Conn) receiveMsg() error {
 	}
 }
 
-func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
+// a request is taken once, thus it never
+// receives more then one response
+func (c *Conn) takeRequest(rseq uint32) (rq chan<- msg.Msg, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	rq, ok = c.reqs[rseq]
+	if rq, ok = c.reqs[rseq]; ok == true {
+		delete(c.reqs, rseq)
+	}
 	return
 }
 
@@ -513,11 +525,13 @@ func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg) {
 	c.reqs[seq] = rq
 }
 
-func (c *Conn) delRequest(seq uint32) {
+func (c *Conn) delRequest(seq uint32) (ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	_, ok = c.reqs[seq]
 	delete(c.reqs, seq)
+	return
 }
 
 func (c *Conn) responseTimeout() (rt time.Duration) {
@@ -560,6 +574,12 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		return
 
 	case <-tc:
+
+		if c.delRequest(seq) == false {
+			reply = <-rq // the response has been received
+			return
+		}
+
 		return nil, ErrTimeout
 
 	case <-c.closeq:
-- 
2.43.0


From c775ffd1fc5dcc04285d169f1f8575d4135f8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 51/96] fix: never block the Node on a peer that does not read

The receiving goroutine, requests, the feeds and all users of the feeds
blocked forever if a peer didn't read messages. And a handshake without
response timeout panicked.
---
 node/conn.go      | 77 +++++++++++++++++++++++++++++++++++++++++++++--
 node/handshake.go | 62 +++++++++++++++++++-------------------
 2 files changed, 105 insertions(+), 34 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 5a8acee..c3ed19f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -36,6 +36,10 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
+	omx  sync.Mutex    // locks the out
+	out  [][]byte      // encoded messeges to send
+	outq chan struct{} // there are messeges to send
+
 	// # stat
 	//
 	// TODO (kostyarin): stat without mutexes to do not slow down the connection
@@ -64,6 +68,7 @@ func (n *Node) newConnection(
 		closeq: make(chan struct{}),
 
 		sendq: fc.GetChanOut(),
+		outq:  make(chan struct{}, 1),
 
 		reqs: make(map[uint32]chan<- msg.Msg),
 	}
@@ -89,6 +94,12 @@ func (c *Conn) run() {
 		}
 	}()
 
+	c.await.Add(1)
+	go func() {
+		defer c.await.Done()
+		c.sendMsgs()
+	}()
+
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
@@ -450,9 +461,67 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	return c.pushMsg(c.encodeMsg(seq, rseq, m))
+}
+
+// a peer that doesn't read its messeges should not
+// block the Node, and should not use all its memory
+const maxSendQueue int = 4096
+
+func (c *Conn) pushMsg(raw []byte) (err error) {
+	c.omx.Lock()
+	defer c.omx.Unlock()
+
+	if len(c.out) >= maxSendQueue {
+		c.terminate()
+		return ErrClosed
+	}
+
+	c.out = append(c.out, raw)
+
+	select {
+	case c.outq <- struct{}{}:
+	default:
+	}
+
+	return
+}
+
+func (c *Conn) popMsg() (raw []byte, ok bool) {
+	c.omx.Lock()
+	defer c.omx.Unlock()
+
+	if ok = len(c.out) > 0; ok == true {
+		raw, c.out[0] = c.out[0], nil // GC
+		c.out = c.out[1:]
+	}
+
+	return
+}
+
+// send encoded messeges until the Conn is closed
+func (c *Conn) sendMsgs() {
+
+	for {
+
+		for raw, ok := c.popMsg(); ok == true; raw, ok = c.popMsg() {
+
+			select {
+			case c.sendq <- raw:
+			case <-c.closeq:
+				return
+			}
+
+		}
+
+		select {
+		case <-c.outq:
+		case <-c.closeq:
+			return
+		}
+
+	}
 
-	return nil
 }
 
 func (c *Conn) receiveMsg() error {
@@ -567,7 +636,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 	c.addRequest(seq, rq)
 	defer c.delRequest(seq)
 
-	c.sendMsg(seq, 0, m)
+	if err = c.sendMsg(seq, 0, m); err != nil {
+		return
+	}
 
 	select {
 	case reply = <-rq:
diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..c2d2a4a 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -18,6 +18,20 @@ func (c *Conn) handshake() error {
 	}
 }
 
+// the goroutine that sends messeges is not started yet
+func (c *Conn) sendHandshake(
+	seq, rseq uint32, m msg.Msg, tc <-chan time.Time) error {
+
+	select {
+	case c.sendq <- c.encodeMsg(seq, rseq, m):
+		return nil
+	case <-tc:
+		return ErrTimeout
+	case <-c.closeq:
+		return ErrClosed
+	}
+}
+
 func (c *Conn) performHandshake() error {
 	c.n.Debugf(ConnHskPin, "[%s] perform  handshake", c.String())
 
@@ -30,24 +44,17 @@ func (c *Conn) performHandshake() error {
 			NodeID:   c.n.idpk,
 		}
 	)
-	if err := c.sendMsg(seq, 0, syn); err != nil {
-		return err
-	}
-
 	// Check specified response timeout.
 	// TODO: add special parameter for handshake timeout.
-	var (
-		rt time.Duration
-		tm *time.Timer
-	)
-	if c.IsTCP() == true {
-		rt = c.n.config.TCP.ResponseTimeout
-	} else {
-		rt = c.n.config.UDP.ResponseTimeout
-	}
-	if rt > 0 {
-		tm = time.NewTimer(rt)
+	var tc <-chan time.Time
+	if rt := c.responseTimeout(); rt > 0 {
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+		tc = tm.C
+	}
+
+	if err := c.sendHandshake(seq, 0, syn, tc); err != nil {
+		return err
 	}
 
 	// Wait for response message with timeout.
@@ -81,7 +88,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -96,18 +103,11 @@ func (c *Conn) acceptHandshake() (err error) {
 
 	// Check specified response timeout.
 	// TODO: add special parameter for handshake timeout.
-	var (
-		rt time.Duration
-		tm *time.Timer
-	)
-	if c.IsTCP() == true {
-		rt = c.n.config.TCP.ResponseTimeout
-	} else {
-		rt = c.n.config.UDP.ResponseTimeout
-	}
-	if rt > 0 {
-		tm = time.NewTimer(rt)
+	var tc <-chan time.Time
+	if rt := c.responseTimeout(); rt > 0 {
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+		tc = tm.C
 	}
 
 	// Wait for incoming message with timeout.
@@ -137,7 +137,7 @@ func (c *Conn) acceptHandshake() (err error) {
 					Err: err.Error(),
 				}
 			)
-			if sendErr := c.sendMsg(c.nextSeq(), seq, errMsg); sendErr != nil {
+			if sendErr := c.sendHandshake(c.nextSeq(), seq, errMsg, tc); sendErr != nil {
 				c.n.Error(sendErr, "failed to send err message")
 			}
 
@@ -153,7 +153,7 @@ func (c *Conn) acceptHandshake() (err error) {
 					Err: err.Error(),
 				}
 			)
-			if sendErr := c.sendMsg(c.nextSeq(), seq, errMsg); sendErr != nil {
+			if sendErr := c.sendHandshake(c.nextSeq(), seq, errMsg, tc); sendErr != nil {
 				c.n.Error(sendErr, "faield to send err message")
 			}
 
@@ -164,14 +164,14 @@ func (c *Conn) acceptHandshake() (err error) {
 		ack := &msg.Ack{
 			NodeID: c.n.idpk,
 		}
-		if err := c.sendMsg(c.nextSeq(), seq, ack); err != nil {
+		if err := c.sendHandshake(c.nextSeq(), seq, ack, tc); err != nil {
 			return fmt.Errorf("failed to send ack message: %s", err)
 		}
 
 		// Handshake is complete.
 		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
-- 
2.43.0


From bb4474b2974210e581fa019b05a160d97af93604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 52/96] fix: zero turns the limits of connections off

The configurations say that zero disables the limit, but it was limit of
zero connections.
---
 node/node.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index ddf20bb..fd2c0c8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -366,6 +367,10 @@ func (n *Node) connCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns) + len(n.addrToConn)
 	if count >= n.config.MaxConnections {
 		return 0
@@ -378,6 +383,10 @@ func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxPendingConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns)
 	if count >= n.config.MaxPendingConnections {
 		return 0
@@ -449,10 +458,14 @@ func (n *Node) onNewConn(
 	defer n.mx.Unlock()
 
 	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
+	if mc := n.config.MaxConnections; mc > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= mc {
+
 		return nil, false, false, ErrConnLimit
 	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
+	if mpc := n.config.MaxPendingConnections; mpc > 0 &&
+		len(n.pendConns) >= mpc {
+
 		return nil, false, false, ErrPendConnLimit
 	}
 
-- 
2.43.0


From 186204627b83ac4649b8a6900713768e1ed7fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 53/96] fix: keep one connection per peer and forget closed
 ones

Two handshakes with the same peer at the same time could both succeed.
A connection closed just after the handshake stayed in the transport
forever, and following Connect calls returned it. A connection that is
not needed, because there is another one, was not closed.
---
 node/conn.go       | 13 ++++++--
 node/handshake.go  | 12 ++-----
 node/node.go       | 67 ++++++++++++++++++++++++++++++++-------
 node/transports.go | 79 ++++++++++++++++------------------------------
 4 files changed, 97 insertions(+), 74 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index c3ed19f..2153ebc 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -113,9 +113,9 @@ func (c *Conn) run() {
 
 	// Remove connection from trasnport's cache and close factory.Connection.
 	if c.IsTCP() {
-		c.n.tcp.closeConn(c.Address())
+		c.n.TCP().closeConn(c)
 	} else {
-		c.n.udp.closeConn(c.Address())
+		c.n.UDP().closeConn(c)
 	}
 
 	// In connection is closed in case of error, decide which one to pass to OnDisconnect.
@@ -410,6 +410,15 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
+func (c *Conn) isClosed() bool {
+	select {
+	case <-c.closeq:
+		return true
+	default:
+		return false
+	}
+}
+
 // signal for all goroutines to exit
 func (c *Conn) terminate() {
 	c.closeo.Do(func() {
diff --git a/node/handshake.go b/node/handshake.go
index c2d2a4a..6c4b3b0 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -76,10 +76,7 @@ func (c *Conn) performHandshake() error {
 		switch x := m.(type) {
 		case *msg.Ack:
 			// Check if node already has connection with peer.
-			if _, ok := c.n.hasPeer(x.NodeID); ok {
-				return ErrAlreadyHaveConnection
-			}
-			c.peerID = x.NodeID
+			return c.n.addPeer(c, x.NodeID)
 
 		case *msg.Err:
 			return errors.New(x.Err)
@@ -94,8 +91,6 @@ func (c *Conn) performHandshake() error {
 	case <-c.closeq:
 		return ErrClosed
 	}
-
-	return nil
 }
 
 func (c *Conn) acceptHandshake() (err error) {
@@ -145,10 +140,8 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Check if node already has connection with peer.
-		if _, ok := c.n.hasPeer(syn.NodeID); ok {
+		if err := c.n.addPeer(c, syn.NodeID); err != nil {
 			var (
-				err = ErrAlreadyHaveConnection
-
 				errMsg = &msg.Err{
 					Err: err.Error(),
 				}
@@ -169,7 +162,6 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Handshake is complete.
-		c.peerID = syn.NodeID
 
 	case <-tc:
 		return ErrTimeout
diff --git a/node/node.go b/node/node.go
index fd2c0c8..ddf5676 100644
--- a/node/node.go
+++ b/node/node.go
@@ -413,8 +413,12 @@ func (n *Node) initConn(
 	}
 
 	switch {
-	// In case of exisitng connection return it.
+	// In case of exisitng connection return it, new one is not needed.
 	case !isNew && !isPending:
+		if isIncoming || c.isClosed() {
+			return nil, ErrAlreadyHaveConnection
+		}
+		fc.Close()
 		return c, nil
 
 	// In case of existing pending connnection:
@@ -425,21 +429,30 @@ func (n *Node) initConn(
 		if isIncoming {
 			return nil, errors.New("already have incoming pending connection")
 		}
+		fc.Close()
 		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
 			return nil, err
 		}
 		return c, nil
 
 	// In case of new connection perform/accept handshake.
 	case isNew:
-		if err = c.handshake(); err != nil {
+		if err = c.handshake(); err == nil {
+			err = n.onConnInit(c)
+		}
+		if err != nil {
 			err = fmt.Errorf("handshake failed: %s", err)
 			n.onConnInitErr(c, err)
 			return nil, err
 		}
 
-		n.onConnInit(c)
+		// The run removes the connection from cache of the transport.
+		if c.IsTCP() {
+			n.TCP().addConn(c)
+		} else {
+			n.UDP().addConn(c)
+		}
+
 		go c.run()
 
 		return c, nil
@@ -494,23 +507,49 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 
 	delete(n.pendConns, c.Address())
 
+	if n.pkToConn[c.peerID] == c {
+		delete(n.pkToConn, c.peerID)
+	}
+
+	c.terminate() // there are not goroutines to wait for
+
 	c.initErr = initErr
 	close(c.initq)
 }
 
+// addPeer atomically checks for existing connection to the
+// peer and adds given one if there is not another connection.
+func (n *Node) addPeer(c *Conn, id cipher.PubKey) error {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	if p, ok := n.pkToConn[id]; ok && p != c {
+		return ErrAlreadyHaveConnection
+	}
+
+	c.peerID = id
+	n.pkToConn[id] = c
+
+	return nil
+}
+
 // onConnInit atomically moves pending connection to cache
-// and singals about initConn success. It also chekcs if
-// peer's pubkey, receieved during hanshake is duplicate.
-func (n *Node) onConnInit(c *Conn) {
+// and singals about initConn success.
+func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if c.isClosed() {
+		return ErrClosed
+	}
+
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
-	n.pkToConn[c.peerID] = c
 
 	close(c.initq)
+
+	return nil
 }
 
 // removeConn reomoves connection from cache.
@@ -518,8 +557,12 @@ func (n *Node) removeConn(c *Conn) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	delete(n.addrToConn, c.Address())
-	delete(n.pkToConn, c.peerID)
+	if n.addrToConn[c.Address()] == c {
+		delete(n.addrToConn, c.Address())
+	}
+	if n.pkToConn[c.peerID] == c {
+		delete(n.pkToConn, c.peerID)
+	}
 }
 
 func (n *Node) updateServiceDiscovery() {
@@ -661,7 +704,9 @@ func (n *Node) hasPeer(id cipher.PubKey) (c *Conn, yep bool) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	c, yep = n.pkToConn[id]
+	if c, yep = n.pkToConn[id]; yep && n.addrToConn[c.Address()] != c {
+		return nil, false // is not established yet
+	}
 	return
 }
 
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..afed118 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -100,7 +100,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 
 	// Check if connections to/from address already exists.
 	c := t.getConn(address)
-	if c != nil {
+	if c != nil && !c.isClosed() {
 		return c, nil
 	}
 
@@ -113,9 +113,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = t.n.initConn(fc, false); err == nil {
-		t.addConn(c)
-	} else {
+	if c, err = t.n.initConn(fc, false); err != nil {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -136,19 +134,16 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 		addr = fc.GetRemoteAddr().String()
 		err  error
 	)
-	c := t.getConn(addr)
-	if c != nil {
+	if t.getConn(addr) != nil {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = t.n.initConn(fc, true)
+		_, err = t.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		t.addConn(c)
-	} else {
+	if err != nil {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -159,22 +154,19 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 }
 
 // closeConn closes factory.Connection, underlying Conn and removes it from cache
-func (t *TCP) closeConn(addr string) error {
+func (t *TCP) closeConn(c *Conn) {
+	if !c.Connection.IsClosed() {
+		t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
+		c.Connection.Close()
+	}
+
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
-	if c, ok := t.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
+	// the address can be used by another connection already
+	if t.cs[c.Address()] == c {
+		delete(t.cs, c.Address())
 	}
-
-	delete(t.cs, addr)
-
-	return nil
 }
 
 // Discovery returns underlying MessengerFactory that
@@ -391,13 +383,6 @@ func (u *UDP) addConn(c *Conn) {
 	u.cs[c.Address()] = c
 }
 
-func (u *UDP) delConn(c *Conn) {
-	u.mx.Lock()
-	defer u.mx.Unlock()
-
-	delete(u.cs, c.Address())
-}
-
 func (u *UDP) getConn(address string) (c *Conn) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
@@ -443,7 +428,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 
 	// Check if connections to/from address already exists.
 	c := u.getConn(address)
-	if c != nil {
+	if c != nil && !c.isClosed() {
 		return c, nil
 	}
 
@@ -456,9 +441,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = u.n.initConn(fc, false); err == nil {
-		u.addConn(c)
-	} else {
+	if c, err = u.n.initConn(fc, false); err != nil {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%] closing factory.Connection",
@@ -479,19 +462,16 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 		addr = fc.GetRemoteAddr().String()
 		err  error
 	)
-	c := u.getConn(addr)
-	if c != nil {
+	if u.getConn(addr) != nil {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = u.n.initConn(fc, true)
+		_, err = u.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		u.addConn(c)
-	} else {
+	if err != nil {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -502,22 +482,19 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 }
 
 // closeConn closes factory.Connection, underlying Conn, and removes it from cache
-func (u *UDP) closeConn(addr string) error {
+func (u *UDP) closeConn(c *Conn) {
+	if !c.Connection.IsClosed() {
+		u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
+		c.Connection.Close()
+	}
+
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
-	if c, ok := u.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
+	// the address can be used by another connection already
+	if u.cs[c.Address()] == c {
+		delete(u.cs, c.Address())
 	}
-
-	delete(u.cs, addr)
-
-	return nil
 }
 
 // Discovery returns underlying MessengerFactory that
-- 
2.43.0


From 3d9c71b4abc15014a5719e9f12e3e71e6f9e3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:07 +0000
Subject: [PATCH 54/96] fix: keep both ends of a subscription agreed

A closed connection stayed in its feeds. A Root sent just after the Ok was
dropped by the subscriber, since the connection was not added to the feed
yet. A subscription racing with the DontShare started sharing of the feed
again. An Unsub could overtake the Ok. The last Root object could be sent
after the unsubscribing. And the OnUnsubscribeRemote was never called.
---
 node/conn.go   |  74 ++++++++++++++++++++++++----------
 node/errors.go |   1 +
 node/feeds.go  | 107 +++++++++++++++++++++++++++++++++++++++----------
 3 files changed, 140 insertions(+), 42 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 2153ebc..990dd70 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -49,8 +49,13 @@ type Conn struct {
 	mx sync.Mutex // locks all fields below, TODO: change to RWMutex
 
 	// request - response
-	seq  uint32                    // messege seq number (for request-response)
-	reqs map[uint32]chan<- msg.Msg // requests
+	seq  uint32             // messege seq number (for request-response)
+	reqs map[uint32]request // requests
+}
+
+type request struct {
+	rq  chan<- msg.Msg // response
+	sub cipher.PubKey  // feed of Sub request
 }
 
 func (n *Node) newConnection(
@@ -70,7 +75,7 @@ func (n *Node) newConnection(
 		sendq: fc.GetChanOut(),
 		outq:  make(chan struct{}, 1),
 
-		reqs: make(map[uint32]chan<- msg.Msg),
+		reqs: make(map[uint32]request),
 	}
 
 	return c
@@ -109,6 +114,7 @@ func (c *Conn) run() {
 	// Wait for all groutines to exit.
 	c.await.Wait()
 
+	c.n.fs.delConn(c)
 	c.n.removeConn(c)
 
 	// Remove connection from trasnport's cache and close factory.Connection.
@@ -264,7 +270,7 @@ func (c *Conn) sendLastRoot(pk cipher.PubKey) {
 	)
 
 	if err == nil {
-		c.sendRoot(r)
+		c.n.fs.sendRoot(c, r)
 		return
 	}
 
@@ -290,6 +296,10 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
+		// the peer can accept the subscription later
+		if c.n.fs.hasConnFeed(c, feed) == false {
+			c.unsubscribe(feed)
+		}
 		return
 	}
 
@@ -310,7 +320,6 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
-	c.n.fs.addConnFeed(c, feed)
 	c.sendLastRoot(feed)
 	return
 }
@@ -324,8 +333,7 @@ func (c *Conn) unsubscribe(pk cipher.PubKey) {
 
 // Unsubscribe from given feed of remote peer
 func (c *Conn) Unsubscribe(feed cipher.PubKey) {
-	c.n.fs.delConnFeed(c, feed)
-	c.unsubscribe(feed) // notify peer
+	c.n.fs.delConnFeed(c, feed, true) // and notify peer
 	return
 }
 
@@ -569,8 +577,8 @@ func (c *Conn) receiveMsg() error {
 			// Handle message.
 			if rseq != 0 {
 				// A response, that nobody waits for, is ignored.
-				if rq, ok := c.takeRequest(rseq); ok == true {
-					rq <- msg
+				if r, ok := c.takeRequest(rseq); ok == true {
+					r.rq <- c.handleResponse(r, msg)
 				}
 				continue
 			}
@@ -586,21 +594,37 @@ func (c *Conn) receiveMsg() error {
 
 // a request is taken once, thus it never
 // receives more then one response
-func (c *Conn) takeRequest(rseq uint32) (rq chan<- msg.Msg, ok bool) {
+func (c *Conn) takeRequest(rseq uint32) (r request, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	if rq, ok = c.reqs[rseq]; ok == true {
+	if r, ok = c.reqs[rseq]; ok == true {
 		delete(c.reqs, rseq)
 	}
 	return
 }
 
-func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg) {
+// the peer sends Root objects just after the Ok, and the
+// connection should be added to the feed before them
+func (c *Conn) handleResponse(r request, m msg.Msg) msg.Msg {
+
+	if _, ok := m.(*msg.Ok); ok == false || r.sub == (cipher.PubKey{}) {
+		return m
+	}
+
+	if c.n.fs.addConnFeed(c, r.sub, 0) == false {
+		c.unsubscribe(r.sub)
+		return &msg.Err{Err: errDontShare.Error()}
+	}
+
+	return m
+}
+
+func (c *Conn) addRequest(seq uint32, r request) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.reqs[seq] = rq
+	c.reqs[seq] = r
 }
 
 func (c *Conn) delRequest(seq uint32) (ok bool) {
@@ -642,7 +666,13 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		seq = c.nextSeq()
 	)
 
-	c.addRequest(seq, rq)
+	var r = request{rq: rq}
+
+	if sub, ok := m.(*msg.Sub); ok == true {
+		r.sub = sub.Feed
+	}
+
+	c.addRequest(seq, r)
 	defer c.delRequest(seq)
 
 	if err = c.sendMsg(seq, 0, m); err != nil {
@@ -755,7 +785,7 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 
 	// check first
 	if c.n.fs.hasConnFeed(c, sub.Feed) == true {
-		c.sendOk(seq) // already subscribed
+		c.n.fs.addConnFeed(c, sub.Feed, seq) // already subscribed
 		return
 	}
 
@@ -772,16 +802,12 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 	// and anyway we can't subscribe to a feed we don't
 	// share
 
-	if c.n.fs.hasFeed(sub.Feed) == false {
-		c.sendErr(seq, errors.New("do not share the feed"))
+	if c.n.fs.addConnFeed(c, sub.Feed, seq) == false {
 		return
 	}
 
 	// ok
 
-	c.n.fs.addConnFeed(c, sub.Feed)
-	c.sendOk(seq)
-
 	c.sendLastRoot(sub.Feed) // and push last Root
 
 	return
@@ -797,7 +823,13 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
-	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	var has = c.n.fs.hasConnFeed(c, unsub.Feed)
+
+	c.n.fs.delConnFeed(c, unsub.Feed, false) // delete
+
+	if has == true {
+		c.n.onUnsubscribeRemote(c, unsub.Feed) // callback
+	}
 	return
 }
 
diff --git a/node/errors.go b/node/errors.go
index 2bf6562..1951434 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -17,5 +17,6 @@ var (
 	ErrUnsubscribe             = errors.New("unsubscribe")
 	ErrBlankFeed               = errors.New("blank feed")
 	ErrConnLimit               = errors.New("max nubmber of connections exceeded")
+	errDontShare               = errors.New("do not share the feed")
 	ErrPendConnLimit           = errors.New("max number of pending connections exceeded")
 )
diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..047da15 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -18,6 +18,9 @@ type connRoot struct {
 type connFeed struct {
 	c *Conn
 	f cipher.PubKey
+
+	seq   uint32 // reply to Sub messege with the seq (if it is not zero)
+	unsub bool   // send Unsub messege
 }
 
 // feeds of the Node
@@ -33,11 +36,13 @@ type nodeFeeds struct {
 	delq chan cipher.PubKey // del feed
 
 	addcfq chan connFeed // add connection to a feed
+	addcfb chan bool     // add connection to a feed boolean reply
 	delcfq chan connFeed // del connection from a feed
 
 	delcq chan *Conn // delete connection (closed connection and similar)
 
 	brorq chan connRoot // broadcast root to feed (triggered by head)
+	sndrq chan connRoot // send root to a connection of feed
 
 	// info api
 
@@ -82,11 +87,13 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 	n.delq = make(chan cipher.PubKey) // del feed
 
 	n.addcfq = make(chan connFeed) // add connection to a feed
+	n.addcfb = make(chan bool)
 	n.delcfq = make(chan connFeed) // del connection from a feed
 
 	n.delcq = make(chan *Conn)
 
 	n.brorq = make(chan connRoot)
+	n.sndrq = make(chan connRoot)
 
 	// info api
 
@@ -145,6 +152,7 @@ func (n *nodeFeeds) handle() {
 		delcfq = n.delcfq
 		delcq  = n.delcq
 		broq   = n.brorq
+		sndrq  = n.sndrq
 
 		listrq  = n.listrq
 		fcrq    = n.fcrq
@@ -178,6 +186,9 @@ func (n *nodeFeeds) handle() {
 		case cr = <-broq:
 			n.handleBroadcastRoot(cr)
 
+		case cr = <-sndrq:
+			n.handleSendRoot(cr)
+
 		case pk = <-addq:
 			n.handleAddFeed(pk)
 
@@ -288,16 +299,29 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 	delete(n.fs, pk)
 	n.fl = nil
 
+	for c := range nf.cs {
+		n.addIdle(c)
+	}
+
 }
 
-// (api)
-func (n *nodeFeeds) addConnFeed(c *Conn, pk cipher.PubKey) {
+// (api) the seq is seq of Sub messege to reply, or zero
+func (n *nodeFeeds) addConnFeed(
+	c *Conn, pk cipher.PubKey, seq uint32) (ok bool) {
 
 	select {
-	case n.addcfq <- connFeed{c, pk}:
+	case n.addcfq <- connFeed{c: c, f: pk, seq: seq}:
 	case <-n.closeq:
+		return
 	}
 
+	select {
+	case ok = <-n.addcfb:
+	case <-n.closeq:
+	}
+
+	return
+
 }
 
 // (handler)
@@ -307,28 +331,42 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	// if the cf.f is blank the this connection is new
 
-	if cf.f == (cipher.PubKey{}) {
-		n.fs[cipher.PubKey{}].addConn(cf.c)
-		return
+	var nf, ok = n.fs[cf.f]
+
+	// a closed connection can't be added, since it's deleted already
+
+	if ok = ok && cf.c.isClosed() == false; ok == true {
+
+		nf.addConn(cf.c)
+
+		if cf.f != (cipher.PubKey{}) {
+			n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
+		}
+
 	}
 
-	var nf, ok = n.fs[cf.f]
+	// reply here to keep order of messeges
 
-	if ok == false {
-		nf = newNodeFeed(n, cf.f)
-		n.fs[cf.f] = nf
+	if cf.seq != 0 {
+		if ok == true {
+			cf.c.sendOk(cf.seq)
+		} else {
+			cf.c.sendErr(cf.seq, errDontShare)
+		}
 	}
 
-	nf.addConn(cf.c)
-	n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
+	select {
+	case n.addcfb <- ok:
+	case <-n.closeq:
+	}
 
 }
 
 // (api)
-func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey) {
+func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey, unsub bool) {
 
 	select {
-	case n.delcfq <- connFeed{c, pk}:
+	case n.delcfq <- connFeed{c: c, f: pk, unsub: unsub}:
 	case <-n.closeq:
 	}
 
@@ -339,16 +377,24 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleDelConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	if cf.unsub == true {
+		cf.c.unsubscribe(cf.f) // notify peer
+	}
+
 	var nf, ok = n.fs[cf.f]
 
-	if ok == false {
-		return // no such feed
+	if ok == false || nf.hasConn(cf.c) == false {
+		return // no such feed, or the connection is not subscribed to it
 	}
 
 	nf.delConn(cf.c)
+	n.addIdle(cf.c)
+
+}
 
-	// if the connection does't share a feed, then
-	// we put it to idle
+// if the connection does't share a feed, then
+// we put it to idle
+func (n *nodeFeeds) addIdle(c *Conn) {
 
 	for pk, nf := range n.fs {
 
@@ -356,13 +402,13 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 			continue // avoid map lookup
 		}
 
-		if nf.hasConn(cf.c) == true {
+		if nf.hasConn(c) == true {
 			return
 		}
 
 	}
 
-	n.fs[cipher.PubKey{}].addConn(cf.c) // add to idle
+	n.fs[cipher.PubKey{}].addConn(c) // add to idle
 
 }
 
@@ -388,6 +434,25 @@ func (n *nodeFeeds) handleBroadcastRoot(cr connRoot) {
 	nf.broadcastRoot(cr)
 }
 
+// (api) send given Root if the connection is subscribed to its feed
+func (n *nodeFeeds) sendRoot(c *Conn, r *registry.Root) {
+
+	select {
+	case n.sndrq <- connRoot{c, r}:
+	case <-n.closeq:
+	}
+
+}
+
+// (handler)
+func (n *nodeFeeds) handleSendRoot(cr connRoot) {
+
+	if nf, ok := n.fs[cr.r.Pub]; ok == true && nf.hasConn(cr.c) == true {
+		cr.c.sendRoot(cr.r)
+	}
+
+}
+
 // (api)
 func (n *nodeFeeds) delConn(c *Conn) {
 
@@ -566,7 +631,7 @@ func (n *nodeFeeds) handleConnectionsOfFeed(pk cipher.PubKey) {
 func (n *nodeFeeds) hasConnFeed(c *Conn, pk cipher.PubKey) (yep bool) {
 
 	select {
-	case n.hascfrq <- connFeed{c, pk}:
+	case n.hascfrq <- connFeed{c: c, f: pk}:
 	case <-n.closeq:
 		return
 	}
-- 
2.43.0


From 13a0d7158592d65c179c88be6450a8fc6dc0486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:52 +0000
Subject: [PATCH 55/96] fix: new connections don't share a feed

The ConnectionsOfFeed called with blank public key should return them.
---
 node/conn.go  | 3 +++
 node/feeds.go | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 990dd70..1083bf0 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -88,6 +88,9 @@ func (c *Conn) waitForInit() error {
 
 // run defines connection lifecycle.
 func (c *Conn) run() {
+	// New connection does not share a feed.
+	c.n.fs.addConnFeed(c, cipher.PubKey{}, 0)
+
 	// Receive messages, until close signal is received or error occures.
 	// In case of error stop all goroutines, started by connection.
 	var rcvErr error
diff --git a/node/feeds.go b/node/feeds.go
index 047da15..e1f783a 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -337,9 +337,10 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	if ok = ok && cf.c.isClosed() == false; ok == true {
 
-		nf.addConn(cf.c)
-
-		if cf.f != (cipher.PubKey{}) {
+		if cf.f == (cipher.PubKey{}) {
+			n.addIdle(cf.c)
+		} else {
+			nf.addConn(cf.c)
 			n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
 		}
 
-- 
2.43.0


From 0cfad9ffff1a019fff9e8b21933548ea4b40c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:52 +0000
Subject: [PATCH 56/96] fix: never send an old Root after newer one

The last Root object, sent to a new subscriber, could be sent after a newer
one received or published at the same time.
---
 node/conn.go  | 107 ++++++++++++++++++++++++++++++++++++++++++--------
 node/feed.go  |  13 +++++-
 node/feeds.go |   2 +-
 3 files changed, 102 insertions(+), 20 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 1083bf0..526431c 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -18,6 +18,19 @@ import (
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
+// head of a feed
+type rootHead struct {
+	feed  cipher.PubKey
+	nonce uint64
+}
+
+// a messege to send
+type outMsg struct {
+	raw  []byte   // encoded messege
+	head rootHead // head of the Root (if the messege is Root)
+	seq  uint64   // seq of the Root
+}
+
 // A Conn represent connection of the Node
 type Conn struct {
 	*factory.Connection
@@ -36,9 +49,10 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
-	omx  sync.Mutex    // locks the out
-	out  [][]byte      // encoded messeges to send
-	outq chan struct{} // there are messeges to send
+	omx  sync.Mutex          // locks the out and the sent
+	out  []outMsg            // encoded messeges to send
+	sent map[rootHead]uint64 // last Root objects sent (seq)
+	outq chan struct{}       // there are messeges to send
 
 	// # stat
 	//
@@ -73,6 +87,7 @@ func (n *Node) newConnection(
 		closeq: make(chan struct{}),
 
 		sendq: fc.GetChanOut(),
+		sent:  make(map[rootHead]uint64),
 		outq:  make(chan struct{}, 1),
 
 		reqs: make(map[uint32]request),
@@ -252,16 +267,72 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 	return
 }
 
-func (c *Conn) sendRoot(r *registry.Root) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Root{
-		Feed:  r.Pub,
-		Nonce: r.Nonce,
-		Seq:   r.Seq,
+// send given Root; a Root is never sent after newer one (and is never
+// sent twice) if it is not published by user explicitly; a Root that
+// is not sent yet is replaced with newer one
+func (c *Conn) sendRoot(r *registry.Root, publish bool) {
 
-		Value: r.Encode(),
+	var om = outMsg{
+		raw: c.encodeMsg(c.nextSeq(), 0, &msg.Root{
+			Feed:  r.Pub,
+			Nonce: r.Nonce,
+			Seq:   r.Seq,
 
-		Sig: r.Sig,
-	})
+			Value: r.Encode(),
+
+			Sig: r.Sig,
+		}),
+		head: rootHead{r.Pub, r.Nonce},
+		seq:  r.Seq,
+	}
+
+	c.omx.Lock()
+	defer c.omx.Unlock()
+
+	var last, ok = c.sent[om.head]
+
+	if ok == true && om.seq <= last && publish == false {
+		return
+	}
+
+	if ok == false || om.seq > last {
+		c.sent[om.head] = om.seq
+	}
+
+	for i := range c.out {
+		if c.out[i].head == om.head && c.out[i].seq <= om.seq {
+			c.out[i] = om
+			return
+		}
+	}
+
+	c.pushMsg(om)
+}
+
+// the connection has been subscribed to the feed, or unsubscribed from it
+func (c *Conn) resetRoots(feed cipher.PubKey) {
+
+	if feed == (cipher.PubKey{}) {
+		return // idle
+	}
+
+	c.omx.Lock()
+	defer c.omx.Unlock()
+
+	for head := range c.sent {
+		if head.feed == feed {
+			delete(c.sent, head)
+		}
+	}
+
+	var out = c.out
+	c.out = nil
+
+	for _, om := range out {
+		if om.head.feed != feed {
+			c.out = append(c.out, om)
+		}
+	}
 }
 
 // send last Root to peer
@@ -481,23 +552,25 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	return c.pushMsg(c.encodeMsg(seq, rseq, m))
+	c.omx.Lock()
+	defer c.omx.Unlock()
+
+	return c.pushMsg(outMsg{raw: c.encodeMsg(seq, rseq, m)})
 }
 
 // a peer that doesn't read its messeges should not
 // block the Node, and should not use all its memory
 const maxSendQueue int = 4096
 
-func (c *Conn) pushMsg(raw []byte) (err error) {
-	c.omx.Lock()
-	defer c.omx.Unlock()
+// call under lock of the omx
+func (c *Conn) pushMsg(om outMsg) (err error) {
 
 	if len(c.out) >= maxSendQueue {
 		c.terminate()
 		return ErrClosed
 	}
 
-	c.out = append(c.out, raw)
+	c.out = append(c.out, om)
 
 	select {
 	case c.outq <- struct{}{}:
@@ -512,7 +585,7 @@ func (c *Conn) popMsg() (raw []byte, ok bool) {
 	defer c.omx.Unlock()
 
 	if ok = len(c.out) > 0; ok == true {
-		raw, c.out[0] = c.out[0], nil // GC
+		raw, c.out[0] = c.out[0].raw, outMsg{} // GC
 		c.out = c.out[1:]
 	}
 
diff --git a/node/feed.go b/node/feed.go
index 6e28e65..b560ae0 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -27,10 +27,18 @@ func newNodeFeed(nf *nodeFeeds, pk cipher.PubKey) (n *nodeFeed) {
 }
 
 func (n *nodeFeed) addConn(c *Conn) {
-	n.cs[c] = struct{}{}
+	if n.hasConn(c) == false {
+		c.resetRoots(n.this)
+		n.cs[c] = struct{}{}
+	}
 }
 
 func (n *nodeFeed) delConn(c *Conn) {
+	if n.hasConn(c) == false {
+		return
+	}
+
+	c.resetRoots(n.this)
 	delete(n.cs, c)
 
 	for _, nh := range n.hs {
@@ -98,6 +106,7 @@ func (n *nodeFeed) close() {
 	}
 
 	for c := range n.cs {
+		c.resetRoots(n.this)
 		c.unsubscribe(n.this) // send Unsub messege to peer
 	}
 
@@ -111,7 +120,7 @@ func (n *nodeFeed) broadcastRoot(cr connRoot) {
 			continue
 		}
 
-		c.sendRoot(cr.r)
+		c.sendRoot(cr.r, cr.c == nil)
 	}
 
 }
diff --git a/node/feeds.go b/node/feeds.go
index e1f783a..79a7fdb 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -449,7 +449,7 @@ func (n *nodeFeeds) sendRoot(c *Conn, r *registry.Root) {
 func (n *nodeFeeds) handleSendRoot(cr connRoot) {
 
 	if nf, ok := n.fs[cr.r.Pub]; ok == true && nf.hasConn(cr.c) == true {
-		cr.c.sendRoot(cr.r)
+		cr.c.sendRoot(cr.r, false)
 	}
 
 }
-- 
2.43.0


From e6b8bbdde71ae7a92cfa0b26a5bcb0775157bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 57/96] fix: feeds never wait for a head

The head broadcasts a Root and calls user's callbacks, that use the feeds,
while the feeds were waiting for the head. The limit of heads never worked,
since the heads order has never been filled. Requests and the filler of a
closed head blocked forever.
---
 node/feed.go |  11 ++--
 node/head.go | 154 ++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 107 insertions(+), 58 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index b560ae0..726bff3 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -74,21 +74,18 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 			// TODO (kostyarin): container/list or own doubly linked list ?
 
 			// max heads
-			var torm = n.ho[0]             // to remove
-			copy(n.ho, n.ho[1:])           // shift all
-			n.ho[len(n.ho)-1] = cr.r.Nonce // push
+			var torm = n.ho[0] // to remove
 
-			var tormh = n.hs[torm]
-
-			tormh.errq <- ErrMaxHeadsLimit
-			tormh.close() // wait
+			n.hs[torm].closeByError(ErrMaxHeadsLimit)
 
 			delete(n.hs, torm) // remove
+			n.ho = n.ho[1:]    // shift all
 
 		}
 
 		nh = newNodeHead(n)
 		n.hs[cr.r.Nonce] = nh
+		n.ho = append(n.ho, cr.r.Nonce) // push
 	}
 
 	nh.receivedRoot(cr)
diff --git a/node/head.go b/node/head.go
index d3b46ad..05194de 100644
--- a/node/head.go
+++ b/node/head.go
@@ -16,9 +16,11 @@ import (
 type nodeHead struct {
 	n *nodeFeed // back reference
 
-	delcq chan *Conn    // delete connection
-	rrq   chan connRoot // received roots
-	errq  chan error    // close with error (max heads limit)
+	// the feeds send events to the head, and the head uses
+	// the feeds, thus the feeds should not wait for the head
+	mx  sync.Mutex
+	evs []headEvent   // events
+	evq chan struct{} // there are events
 
 	// api info
 
@@ -26,9 +28,15 @@ type nodeHead struct {
 	inforn chan *headInfo // info response
 
 	// closing
-	await  sync.WaitGroup // wait goroutines
-	closeo sync.Once      // close once
-	closeq chan struct{}  // terminate
+	closeo sync.Once     // close once
+	closeq chan struct{} // terminate
+}
+
+// received Root, deleted connection or closing error
+type headEvent struct {
+	cr  connRoot // received root
+	c   *Conn    // delete connection
+	err error    // close with error (max heads limit)
 }
 
 func newNodeHead(nf *nodeFeed) (n *nodeHead) {
@@ -37,54 +45,98 @@ func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 
 	n.n = nf
 
-	n.delcq = make(chan *Conn)
-	n.rrq = make(chan connRoot)
+	n.evq = make(chan struct{}, 1)
+
+	n.inforq = make(chan struct{})
+	n.inforn = make(chan *headInfo)
 
-	n.errq = make(chan error)
 	n.closeq = make(chan struct{})
 
-	n.await.Add(1)
+	nf.fs.await.Add(1)
 	go n.handle()
 
 	return
 }
 
 // (api)
-func (n *nodeHead) closeByError(err error) {
+func (n *nodeHead) addEvent(ev headEvent) {
+
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	n.evs = append(n.evs, ev)
+	n.wake()
+
+}
+
+func (n *nodeHead) wake() {
 
 	select {
-	case n.errq <- err:
-	case <-n.closeq:
+	case n.evq <- struct{}{}:
+	default:
 	}
 
 }
 
-// (api)
-func (n *nodeHead) delConn(c *Conn) {
+func (n *nodeHead) takeEvent() (ev headEvent, ok bool) {
 
-	select {
-	case n.delcq <- c:
-	case <-n.closeq:
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	if ok = len(n.evs) > 0; ok == true {
+		ev = n.evs[0]
+		n.evs = n.evs[1:]
+		if len(n.evs) > 0 {
+			n.wake()
+		}
 	}
 
+	return
+
+}
+
+// (api)
+func (n *nodeHead) closeByError(err error) {
+	n.addEvent(headEvent{err: err})
+}
+
+// (api)
+func (n *nodeHead) delConn(c *Conn) {
+	n.addEvent(headEvent{c: c})
 }
 
 // (api)
 func (n *nodeHead) receivedRoot(cr connRoot) {
 
-	select {
-	case n.rrq <- cr:
-	case <-n.closeq:
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	// only newest Root of the connection makes sense
+
+	for i := range n.evs {
+
+		if n.evs[i].cr.c != cr.c {
+			continue
+		}
+
+		if n.evs[i].cr.r.Seq < cr.r.Seq {
+			n.evs[i].cr = cr
+		}
+
+		return
 	}
 
+	n.evs = append(n.evs, headEvent{cr: cr})
+	n.wake()
+
 }
 
-// (api)
+// (api) the close doesn't wait for goroutines of the
+// head, use await of the nodeFeeds to wait them
 func (n *nodeHead) close() {
 	n.closeo.Do(func() {
 		close(n.closeq)
 	})
-	n.await.Wait()
 }
 
 // code readability
@@ -129,13 +181,12 @@ type fillHead struct {
 
 func (n *nodeHead) handle() {
 
-	defer n.await.Done()
+	defer n.n.fs.await.Done()
+	defer n.close()
 
 	var (
-		delcq  = n.delcq  //
-		rrq    = n.rrq    //
+		evq    = n.evq    //
 		closeq = n.closeq //
-		errq   = n.errq   //
 		inforq = n.inforq //
 
 		f = fillHead{
@@ -152,7 +203,6 @@ func (n *nodeHead) handle() {
 
 		key cipher.SHA256
 		c   *Conn
-		cr  connRoot
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -175,13 +225,25 @@ func (n *nodeHead) handle() {
 
 			f.handleFillingResult(err)
 
-		case cr = <-rrq: // root received
-
-			f.handleReceivedRoot(cr)
-
-		case c = <-delcq: // delete connection
-
-			f.handleDelConn(c)
+		case <-evq:
+
+			var ev, ok = n.takeEvent()
+
+			switch {
+			case ok == false:
+			case ev.cr.r != nil: // root received
+				f.handleReceivedRoot(ev.cr)
+			case ev.c != nil: // delete connection
+				f.handleDelConn(ev.c)
+			case ev.err != nil: // close with error
+				f.p = connRoot{} // remove pending Root
+				if f.f != nil {
+					f.f.Fail(ev.err)
+					f.handleFillingResult(ev.err)
+				}
+				f.terminate()
+				return
+			}
 
 		case <-f.tc: // filling timeout
 
@@ -194,16 +256,6 @@ func (n *nodeHead) handle() {
 		case <-inforq:
 			n.handleInfo(&f)
 
-		case err = <-errq:
-
-			f.p = connRoot{} // remove pending Root
-			if f.f != nil {
-				f.f.Close()
-				f.handleFillingResult(err)
-			}
-			f.terminate()
-			return
-
 		case <-closeq: // terminate
 
 			f.terminate()
@@ -355,18 +407,18 @@ func (f *fillHead) createFiller(cr connRoot) {
 	f.rqo = list.New()                   // create list of keys
 	f.fc = f.cs.buildConnsList(cr.r.Seq) // create list of connections
 
-	f.await.Add(1)
+	f.n.fs.await.Add(1)
 	go f.runFiller(f.f)
 }
 
 // (async)
 func (f *fillHead) runFiller(fill *skyobject.Filler) {
-	defer f.await.Done()
+	defer f.n.fs.await.Done()
+	defer fill.Close()
 
 	select {
 	case f.ff <- fill.Run():
-	case <-f.closeq:
-		fill.Close() // since, the result ignored
+	case <-f.closeq: // the result is ignored
 	}
 }
 
@@ -462,7 +514,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 
 	f.requesting++
 
-	f.await.Add(1) // nodeHead.await
+	f.n.fs.await.Add(1)
 	go f.request(c, f.r.r.Seq, key)
 
 	return
@@ -475,7 +527,7 @@ func (f *fillHead) node() *Node {
 
 // (async) request object
 func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
-	defer f.await.Done()
+	defer f.n.fs.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
 		key.Hex()[:7])
-- 
2.43.0


From aab74ae7227d438bd74beb61f61c1d099e432be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:18 +0000
Subject: [PATCH 58/96] fix: ignore results of requests of a finished filling

A result of a request received after end of the filling panicked, or was
used for another filling. A peer that replies it doesn't have an object was
disconnected. An error of the DB terminated whole process. Old known Root
objects were kept instead of new ones.
---
 node/head.go | 104 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/node/head.go b/node/head.go
index 05194de..79c912c 100644
--- a/node/head.go
+++ b/node/head.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"container/list"
+	"errors"
 	"sync"
 	"time"
 
@@ -144,7 +145,16 @@ func (n *nodeHead) node() *Node {
 	return n.n.fs.n
 }
 
+// results of a request are ignored if filling
+// for which the request was is finished
+type succeededRequest struct {
+	f *skyobject.Filler // requested for
+	c *Conn             // connection
+}
+
 type failedRequest struct {
+	f *skyobject.Filler // requested for
+
 	c   *Conn         // connection
 	seq uint64        // seq of the filling Root
 	key cipher.SHA256 // requested object
@@ -170,8 +180,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -197,12 +207,12 @@ func (n *nodeHead) handle() {
 
 			ff: make(chan error), // filling error or nil (success)
 
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
-		c   *Conn
+		sc  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -213,13 +223,17 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sc = <-f.successq:
 
-			f.handleSuccess(c)
+			if sc.f == f.f {
+				f.handleSuccess(sc.c)
+			}
 
 		case fc = <-f.failureq:
 
-			f.handleRequestFailure(fc)
+			if fc.f == f.f {
+				f.handleRequestFailure(fc)
+			}
 
 		case err = <-f.ff:
 
@@ -239,7 +253,7 @@ func (n *nodeHead) handle() {
 				f.p = connRoot{} // remove pending Root
 				if f.f != nil {
 					f.f.Fail(ev.err)
-					f.handleFillingResult(ev.err)
+					f.handleFillingResult(<-f.ff)
 				}
 				f.terminate()
 				return
@@ -300,15 +314,13 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 		// closed
 		delete(f.cs, fr.c) // remove connection
 
-	case ErrTimeout:
+	default:
+
+		// ErrTimeout or other error
 
 		// probably don't have object we're requesting anymore
 		f.cs.removeKnown(fr.c, fr.seq)
 
-	default:
-
-		// skyobject.ErrTerminated or other error
-
 	}
 
 	f.rqo.PushFront(fr.key) // shift
@@ -434,7 +446,8 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
-	f.rqo, f.fc, f.rq = nil, nil, nil
+	f.f, f.rqo, f.fc, f.rq = nil, nil, nil, nil
+	f.ft, f.tc = nil, nil
 
 	f.r = connRoot{}
 	f.requesting = 0
@@ -515,7 +528,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.n.fs.await.Add(1)
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(f.f, c, f.r.r.Seq, key)
 
 	return
 }
@@ -526,38 +539,53 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	fill *skyobject.Filler, c *Conn, seq uint64, key cipher.SHA256) {
+
 	defer f.n.fs.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
 		key.Hex()[:7])
 
-	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
+	if err := f.requestObject(c, key); err != nil {
+		select {
+		case f.failureq <- failedRequest{fill, c, seq, key, err}:
+		case <-f.closeq:
+		}
+		return
+	}
 
-	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+	select {
+	case f.successq <- succeededRequest{fill, c}:
+	case <-f.closeq:
+	}
+
+}
+
+func (f *fillHead) requestObject(c *Conn, key cipher.SHA256) (err error) {
+
+	var reply msg.Msg
+
+	if reply, err = c.sendRequest(&msg.RqObject{Key: key}); err != nil {
 		return
 	}
 
 	switch x := reply.(type) {
 	case *msg.Object:
-		var rk = cipher.SumSHA256(x.Value)
 
-		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
-			return
+		if cipher.SumSHA256(x.Value) != key {
+			return ErrInvalidResponse
 		}
 
 		// incremented by the Want call(s)
-		if _, err := f.node().c.SetWanted(key, x.Value); err != nil {
-			f.node().Fatal("DB failure:", err)
-			return
-		}
+		_, err = f.node().c.SetWanted(key, x.Value)
+		return
 
-		f.successq <- c
+	case *msg.Err:
+		return errors.New(x.Err) // the peer doesn't have the object
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		return ErrInvalidResponse
 	}
 
 }
@@ -637,22 +665,16 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
-
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
+		var i int
 
+		for i < len(known) && known[i] < seq {
+			i++
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
-- 
2.43.0


From fb228b66b4a42704ac37504eee240e61bb0c580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 59/96] fix: don't fill a Root if there is the same or newer
 one

A Root received many times at the same time was filled many times. Filling
of a pending Root panicked if its connection was closed.
---
 node/head.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/node/head.go b/node/head.go
index 79c912c..841fdb7 100644
--- a/node/head.go
+++ b/node/head.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/skycoin/cxo/node/msg"
 	"github.com/skycoin/cxo/skyobject"
+	"github.com/skycoin/cxo/skyobject/registry"
 	"github.com/skycoin/cxo/skyobject/statutil"
 )
 
@@ -332,6 +333,10 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 	f.node().Debugln(FillPin, "[fill] handleReceivedRoot",
 		cr.c.String(), cr.r.Short())
 
+	if f.isOld(cr.r) == true {
+		return // already have this one or newer
+	}
+
 	// there are a filling Root
 
 	if f.r.r != nil {
@@ -340,11 +345,13 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			return // ignore the old Root
 		}
 
-		f.cs.addKnown(cr.c, cr.r.Seq) // add to known
+		var added = f.cs.addKnown(cr.c, cr.r.Seq) // add to known
 
 		if cr.r.Seq == f.r.r.Seq {
-			f.fc.PushBack(cr.c) // add to filling connections
-			f.triggerRequest()
+			if added == true {
+				f.fc.PushBack(cr.c) // add to filling connections
+				f.triggerRequest()
+			}
 			return
 		}
 
@@ -398,6 +405,12 @@ func (f *fillHead) maxParallel() (mp int) {
 	return
 }
 
+// the Node already has the Root or newer one of the head
+func (f *fillHead) isOld(r *registry.Root) bool {
+	var last, err = f.node().c.LastRootSeq(r.Pub, r.Nonce)
+	return err == nil && last >= r.Seq
+}
+
 func (f *fillHead) createFiller(cr connRoot) {
 	f.node().Debugln(FillPin, "[fill] createFiller", cr.c.String(),
 		cr.r.Short())
@@ -478,7 +491,9 @@ func (f *fillHead) handleFillingResult(err error) {
 
 	// yes
 
-	f.createFiller(f.p)
+	if f.isOld(f.p.r) == false {
+		f.createFiller(f.p)
+	}
 	f.p = connRoot{}
 
 }
@@ -592,15 +607,6 @@ func (f *fillHead) requestObject(c *Conn, key cipher.SHA256) (err error) {
 
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
-
-	if f.r.c == c {
-		f.r.c = nil // GC
-	}
-
-	if f.p.c == c {
-		f.p.c = nil // GC
-	}
-
 }
 
 func (f *fillHead) terminate() {
@@ -609,27 +615,27 @@ func (f *fillHead) terminate() {
 
 type knownRoots map[*Conn][]uint64
 
-func (k knownRoots) addKnown(c *Conn, seq uint64) {
+func (k knownRoots) addKnown(c *Conn, seq uint64) (added bool) {
 
 	var known, ok = k[c]
 
 	if ok == false {
 		k[c] = []uint64{seq}
-		return
+		return true
 	}
 
 	for i, ks := range known {
 
 		// already have
 		if ks == seq {
-			return
+			return false
 		}
 
 		// middle
 		if ks > seq {
 			known = append(known[:i], append([]uint64{seq}, known[i:]...)...)
 			k[c] = known
-			return
+			return true
 		}
 
 	}
@@ -637,7 +643,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 	// tail
 	known = append(known, seq)
 	k[c] = known
-
+	return true
 }
 
 // remove known Root object from a connection, from which
-- 
2.43.0


From adaaf3a79f2891b0a3b519ed36bd8a8ac2315a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 60/96] fix: check nonce, seq and feed of received Root

A peer could send an old Root with greater seq in the message, or preview
of another feed.
---
 node/conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 526431c..d880185 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -441,6 +441,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return errors.New("Root of another feed received")
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
@@ -962,6 +965,12 @@ func (c *Conn) handleRoot(root *msg.Root) (_ error) {
 		return // keep connection ?
 	}
 
+	// the signed Root in person is that matters
+	if r.Nonce != root.Nonce || r.Seq != root.Seq {
+		c.n.Printf("[ERR] [%s] received Root with wrong nonce or seq", c.String())
+		return
+	}
+
 	// do nothing, because the Node already have this Root
 	if r.IsFull == true {
 		return
-- 
2.43.0


From 8c84e0c622337a12946dbc9aa84568c562775a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 61/96] fix: use the MaxFillingParallel of the configurations

It was zero (no limit) always.
---
 node/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/node.go b/node/node.go
index ddf5676..b87195f 100644
--- a/node/node.go
+++ b/node/node.go
@@ -158,6 +158,9 @@ func NewNodeContainer(
 	n.config = conf
 	n.config.Config = c.Config() // actual
 
+	n.maxFillingParallel = n.config.Config.MaxFillingParallel
+	n.rollAvgSamples = n.config.Config.RollAvgSamples
+
 	n.fillavg = statutil.NewDuration(conf.Config.RollAvgSamples)
 
 	//
-- 
2.43.0


From 5dbfab81d47d1955132c42cbb1f19946beda5002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 62/96] fix: send errors of requested objects to the peer

An error of the DB terminated whole process (if a peer requested an object
while the Node was closing, for example), or was sent as empty object.
---
 node/conn.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index d880185..d6d822f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -1004,14 +1004,15 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	//                   only if it is wanted (to think)
 
 	if err := c.n.c.Want(rq.Key, gc, 0); err != nil {
-		c.n.Fatal("DB failure: ", err)
+		c.sendErr(seq, err)
+		return
 	}
 	defer c.n.c.Unwant(rq.Key, gc) // to be memory safe
 
 	select {
 	case obj := <-gc:
 		// got
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 		return
 	default:
 		// wait
@@ -1026,9 +1027,9 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 
 	select {
 	case obj := <-gc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 	case <-tc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Err{}) // timeout
+		c.sendErr(seq, ErrTimeout)
 	case <-c.closeq:
 		// closed
 	}
@@ -1036,6 +1037,16 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	return
 }
 
+func (c *Conn) sendObject(seq uint32, obj skyobject.Object) {
+
+	if obj.Err != nil {
+		c.sendErr(seq, obj.Err)
+		return
+	}
+
+	c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+}
+
 func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
-- 
2.43.0


From 524de6cc7b65626585bbb3aabcd4c265cffd0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 63/96] fix: don't show a preview of a feed the Node doesn't
 share

---
 node/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index d6d822f..6f87758 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -1052,6 +1052,11 @@ func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
 		rqp.Feed.Hex()[:7])
 
+	if c.n.fs.hasFeed(rqp.Feed) == false {
+		c.sendErr(seq, errDontShare)
+		return
+	}
+
 	var r, err = c.n.c.LastRoot(rqp.Feed, c.n.c.ActiveHead(rqp.Feed))
 
 	if err != nil {
-- 
2.43.0


From fd4be70d19d42838014457388afc74fb56183ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 64/96] fix: don't close a connection if its peer requests
 peers of unknown swarm

A Node that joined a swarm disconnected all its peers that didn't.
---
 node/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 6f87758..ede91ec 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -1085,7 +1085,7 @@ func (c *Conn) handleRqPeers(seq uint32, rqp *msg.RqPeers) error {
 	s, ok := c.n.InSwarm(rqp.Feed)
 	if !ok {
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{Err: "not in swarm"})
-		return errors.New("node in not in swarm")
+		return nil
 	}
 
 	peers := s.peersForExchange(c.PeerID())
-- 
2.43.0


From 2b70b353f715526a0df4ba67898c353655de4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:40 +0000
Subject: [PATCH 65/96] fix: allow to close a connection from callbacks

The Close called from the OnSubscribeRemote callback waited for its own
goroutine forever.
---
 node/conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index ede91ec..1deea29 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -511,12 +511,12 @@ func (c *Conn) terminate() {
 	})
 }
 
-// Close the Conn. It's safe to call the Close many times
+// Close the Conn. It's safe to call the Close many times and from
+// callbacks. The Close doesn't wait for goroutines of the connection,
+// the OnDisconnect callback is called after all of them
 func (c *Conn) Close() (err error) {
 	c.terminate()
-	c.await.Wait()
 
-	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
 	// TODO: get errors from background goroutines and retrun them.
 
 	return nil
-- 
2.43.0


From 9d12614cad4e95aace57ff33c4ee3f24f38bbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:40 +0000
Subject: [PATCH 66/96] fix: closing of the Node waits for all that uses the DB

The Close kept the Node locked while it was waiting for goroutines that
use the Node, never stopped the feeds, accepted new connections, and closed
the DB while Root objects were filling. A swarm noticed the closing with
next tick only. Leaving a swarm locked the Node too.
---
 node/feeds.go | 23 +++++++++++++++-
 node/head.go  | 74 ++++++++++++++++++++++++++++++++++++++++++--------
 node/node.go  | 75 +++++++++++++++++++++++++++++++++++++--------------
 node/swarm.go | 28 ++++++++++++-------
 4 files changed, 159 insertions(+), 41 deletions(-)

diff --git a/node/feeds.go b/node/feeds.go
index 79a7fdb..18afc9b 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -65,9 +65,12 @@ type nodeFeeds struct {
 
 	rrq chan connRoot // received root
 
-	await  sync.WaitGroup // wait the handle
+	await  sync.WaitGroup // wait the handle, heads and their goroutines
 	closeo sync.Once      // once
 	closeq chan struct{}  // terminate
+
+	mx      sync.Mutex // lock the closing
+	closing bool       // don't add to the await anymore
 }
 
 func newNodeFeeds(node *Node) (n *nodeFeeds) {
@@ -128,9 +131,27 @@ func (n *nodeFeeds) close() {
 	n.closeo.Do(func() {
 		close(n.closeq)
 	})
+
+	n.mx.Lock()
+	n.closing = true
+	n.mx.Unlock()
+
 	n.await.Wait()
 }
 
+// the await doesn't wait for callbacks, since a callback can close the
+// Node; the resume called after a callback; it returns false if the Node
+// is closing, and the caller should do nothing but exit
+func (n *nodeFeeds) resume() (ok bool) {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	if ok = (n.closing == false); ok == true {
+		n.await.Add(1)
+	}
+	return
+}
+
 func (n *nodeFeeds) terminate() {
 
 	for _, nf := range n.fs {
diff --git a/node/head.go b/node/head.go
index 841fdb7..dc352bf 100644
--- a/node/head.go
+++ b/node/head.go
@@ -188,11 +188,33 @@ type fillHead struct {
 	fc  *list.List // connections to fill from (*Conn)
 
 	requesting int // number of running requests
+
+	closed bool // closed while a callback was running
+}
+
+// call user's callback
+func (f *fillHead) callback(cb func()) (ok bool) {
+	f.n.fs.await.Done()
+
+	cb()
+
+	ok = f.n.fs.resume()
+	f.closed = (ok == false)
+	return
+}
+
+func (f *fillHead) onRootReceived(cr connRoot) (reject error) {
+	var ok = f.callback(func() {
+		reject = f.node().onRootReceived(cr.c, cr.r)
+	})
+	if ok == false {
+		reject = ErrClosed
+	}
+	return
 }
 
 func (n *nodeHead) handle() {
 
-	defer n.n.fs.await.Done()
 	defer n.close()
 
 	var (
@@ -218,7 +240,14 @@ func (n *nodeHead) handle() {
 		err error // fillign failure or nil
 	)
 
-	for {
+	defer func() {
+		if f.closed == false {
+			f.terminate()
+			n.n.fs.await.Done()
+		}
+	}()
+
+	for f.closed == false {
 		select {
 		case key = <-f.rq:
 
@@ -256,7 +285,6 @@ func (n *nodeHead) handle() {
 					f.f.Fail(ev.err)
 					f.handleFillingResult(<-f.ff)
 				}
-				f.terminate()
 				return
 			}
 
@@ -273,7 +301,6 @@ func (n *nodeHead) handle() {
 
 		case <-closeq: // terminate
 
-			f.terminate()
 			return
 
 		}
@@ -358,7 +385,7 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 		if f.p.r == nil {
 
 			// callback
-			if reject := f.node().onRootReceived(cr.c, cr.r); reject != nil {
+			if reject := f.onRootReceived(cr); reject != nil {
 				return // rejected
 			}
 
@@ -371,7 +398,7 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 		if f.p.r.Seq < cr.r.Seq {
 
 			// callback
-			if reject := f.node().onRootReceived(cr.c, cr.r); reject != nil {
+			if reject := f.onRootReceived(cr); reject != nil {
 				return // rejected
 			}
 
@@ -386,7 +413,7 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 	f.cs.addKnown(cr.c, cr.r.Seq) // add connection to known
 
 	// callback
-	if reject := f.node().onRootReceived(cr.c, cr.r); reject != nil {
+	if reject := f.onRootReceived(cr); reject != nil {
 		return // rejected
 	}
 
@@ -441,9 +468,24 @@ func (f *fillHead) runFiller(fill *skyobject.Filler) {
 	defer f.n.fs.await.Done()
 	defer fill.Close()
 
+	var result = make(chan error, 1)
+
+	go func() {
+		result <- fill.Run()
+	}()
+
 	select {
-	case f.ff <- fill.Run():
-	case <-f.closeq: // the result is ignored
+	case err := <-result:
+
+		select {
+		case f.ff <- err:
+		case <-f.closeq: // the result is ignored
+		}
+
+	case <-f.closeq:
+
+		fill.Fail(ErrClosed)
+		<-result
 	}
 }
 
@@ -471,12 +513,22 @@ func (f *fillHead) handleFillingResult(err error) {
 
 	f.node().Debugf(FillPin, "handleFillingResult %s: %v", f.r.r.Short(), err)
 
+	var ok bool
+
 	if err == nil {
-		f.node().onRootFilled(f.r.r)     // callback
+		ok = f.callback(func() {
+			f.node().onRootFilled(f.r.r) // callback
+		})
 		f.favg.Add(time.Now().Sub(f.tp)) // average time
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
 	} else {
-		f.node().onFillingBreaks(f.r.r, err) // callback
+		ok = f.callback(func() {
+			f.node().onFillingBreaks(f.r.r, err) // callback
+		})
+	}
+
+	if ok == false {
+		return // closed
 	}
 
 	f.closeFiller() // close the filler and wait it's goroutines
diff --git a/node/node.go b/node/node.go
index b87195f..e0158d2 100644
--- a/node/node.go
+++ b/node/node.go
@@ -79,8 +79,9 @@ type Node struct {
 	//  closing
 	//
 
-	await  sync.WaitGroup // wait for goroutines
-	closeo sync.Once      // close once
+	await    sync.WaitGroup // wait for goroutines
+	closeo   sync.Once      // close once
+	isClosed bool           // the Node is closed
 }
 
 // NewNode creates new Node instance using provided
@@ -329,6 +330,10 @@ func (n *Node) createTCP() {
 
 	n.tcp = newTCP(n)
 
+	if n.isClosed {
+		n.tcp.Close()
+	}
+
 }
 
 // call under lock of the mx
@@ -340,6 +345,10 @@ func (n *Node) createUDP() {
 
 	n.udp = newUDP(n)
 
+	if n.isClosed {
+		n.udp.Close()
+	}
+
 }
 
 func (n *Node) onConnect(c *Conn) error {
@@ -473,6 +482,10 @@ func (n *Node) onNewConn(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.isClosed {
+		return nil, false, false, ErrClosed
+	}
+
 	// Check limits for number of open connections.
 	if mc := n.config.MaxConnections; mc > 0 &&
 		len(n.pendConns)+len(n.addrToConn) >= mc {
@@ -735,38 +748,57 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
-		n.mx.Lock()
-		defer n.mx.Unlock()
 
-		// Shutdown peer exchange.
-		for _, s := range n.ss {
-			s.shutdown()
+		// Don't accept new connections and swarms.
+		n.mx.Lock()
+		n.isClosed = true
+
+		var (
+			ss       = n.ss
+			tcp, udp = n.tcp, n.udp
+			cs       []*Conn
+		)
+		n.ss = make(map[cipher.PubKey]*Swarm)
+		for _, c := range n.pendConns {
+			cs = append(cs, c)
+		}
+		for _, c := range n.addrToConn {
+			cs = append(cs, c)
 		}
+		n.mx.Unlock()
+
+		// The n.mx should not be locked below, since
+		// all we are waiting for can use the Node.
 
 		// Close all connections.
-		for _, c := range n.pendConns {
+		for _, c := range cs {
 			c.Close()
 		}
-		for _, c := range n.pkToConn {
-			c.Close()
+
+		// Shutdown peer exchange.
+		for _, s := range ss {
+			s.shutdown()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.udp != nil {
-			n.udp.Close()
+		if udp != nil {
+			udp.Close()
 		}
 		if n.rpc != nil {
 			n.rpc.Close()
 		}
 
-		// Close database.
-		err = n.c.Close()
+		// Stop filling of Root objects.
+		n.fs.close()
 
 		n.await.Wait()
 
+		// Close database.
+		err = n.c.Close()
+
 	})
 
 	return
@@ -778,6 +810,10 @@ func (n *Node) JoinSwarm(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.isClosed {
+		return nil, ErrClosed
+	}
+
 	if s, ok := n.ss[feed]; ok {
 		return s, nil
 	}
@@ -793,17 +829,16 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
 	s.shutdown()
 
-	delete(n.ss, feed)
-
 	return nil
 }
 
diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..77f8227 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -77,8 +77,9 @@ type Swarm struct {
 
 	node *Node
 
-	quit chan struct{}
-	done chan struct{}
+	quit  chan struct{}
+	quito sync.Once
+	done  chan struct{}
 
 	mu sync.RWMutex
 
@@ -181,11 +182,15 @@ func (s *Swarm) Peers() []Peer {
 
 func (s *Swarm) run() {
 	var (
-		requestPeers  = time.Tick(s.cfg.RequestPeerRate)
-		clearOldPeers = time.Tick(s.cfg.ClearOldPeersRate)
-		outgoingConn  = time.Tick(s.cfg.OutgoingConnRate)
+		requestPeers  = time.NewTicker(s.cfg.RequestPeerRate)
+		clearOldPeers = time.NewTicker(s.cfg.ClearOldPeersRate)
+		outgoingConn  = time.NewTicker(s.cfg.OutgoingConnRate)
 	)
 
+	defer requestPeers.Stop()
+	defer clearOldPeers.Stop()
+	defer outgoingConn.Stop()
+
 LOOP:
 	for {
 		select {
@@ -195,15 +200,18 @@ LOOP:
 		}
 
 		select {
-		case <-requestPeers:
+		case <-s.quit:
+			break LOOP
+
+		case <-requestPeers.C:
 			if s.needPeers() {
 				s.requestPeers()
 			}
 
-		case <-clearOldPeers:
+		case <-clearOldPeers.C:
 			s.clearOldPeers()
 
-		case <-outgoingConn:
+		case <-outgoingConn.C:
 			if count, ok := s.needConns(); ok {
 				s.createOutgoingConns(count)
 			}
@@ -214,7 +222,9 @@ LOOP:
 }
 
 func (s *Swarm) shutdown() {
-	close(s.quit)
+	s.quito.Do(func() {
+		close(s.quit)
+	})
 	<-s.done
 }
 
-- 
2.43.0


From e5d917c88796d4f6dfc9c24802e08f0f13b68fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 67/96] fix: storing to a closed in-memory CXDS is an error,
 not a panic

---
 data/cxds/cxds.go   | 2 ++
 data/cxds/memory.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index a09fef7..082f5a3 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -22,6 +22,8 @@ const Version int = 2 // previous is 1
 // comon errors
 var (
 	ErrEmptyValue = errors.New("empty value")
+	// ErrClosed occurs on writing to a closed in-memory CXDS
+	ErrClosed = errors.New("closed")
 
 	ErrWrongValueLength = errors.New("wrong value length")
 
diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index feb6f9f..5cb2f73 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -137,6 +137,10 @@ func (m *memoryCXDS) Set(
 		return
 	}
 
+	if m.kvs == nil {
+		return 0, ErrClosed
+	}
+
 	// created
 
 	m.amountAll++
-- 
2.43.0


From 4ea9bd79f29bbed8b33b96c54a70461e64cf7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 68/96] fix: add unknown peers of a swarm and update known ones

The conditions were reversed.
---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 77f8227..d7b1200 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -335,7 +335,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	// Update existing peers or add new one
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
-- 
2.43.0


From a73bd25df423b887ed3b9796085fd1fd0714cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 69/96] fix: send a filled Root to peers that subscribed while
 it was filling

---
 node/head.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/head.go b/node/head.go
index dc352bf..4481a7f 100644
--- a/node/head.go
+++ b/node/head.go
@@ -521,6 +521,9 @@ func (f *fillHead) handleFillingResult(err error) {
 		})
 		f.favg.Add(time.Now().Sub(f.tp)) // average time
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
+
+		// send to peers that subscribed while the Root was filling
+		f.nodeHead.n.fs.broadcastRoot(f.r)
 	} else {
 		ok = f.callback(func() {
 			f.node().onFillingBreaks(f.r.r, err) // callback
-- 
2.43.0


From debae20bf49b6f86e3d9132afaacc883f3942642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 70/96] fix: don't forget a connection that can't send an
 object in time

A peer can announce a Root it is going to fill, thus peers of a ring can
wait for objects of each other. The connection was removed from the head
after the first timeout and the filling failed forever.
---
 node/head.go | 64 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/node/head.go b/node/head.go
index 4481a7f..3055a8c 100644
--- a/node/head.go
+++ b/node/head.go
@@ -186,6 +186,7 @@ type fillHead struct {
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
+	sc  *list.List // connections that don't response in time (*Conn)
 
 	requesting int // number of running requests
 
@@ -342,9 +343,14 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 		// closed
 		delete(f.cs, fr.c) // remove connection
 
-	default:
+	case ErrTimeout:
+
+		// the peer can be waiting for the object too, since it sends
+		// a Root it is going to fill; ask it again if there are not
+		// other connections
+		f.sc.PushBack(fr.c)
 
-		// ErrTimeout or other error
+	default:
 
 		// probably don't have object we're requesting anymore
 		f.cs.removeKnown(fr.c, fr.seq)
@@ -458,6 +464,7 @@ func (f *fillHead) createFiller(cr connRoot) {
 
 	f.rqo = list.New()                   // create list of keys
 	f.fc = f.cs.buildConnsList(cr.r.Seq) // create list of connections
+	f.sc = list.New()                    // and list of slow connections
 
 	f.n.fs.await.Add(1)
 	go f.runFiller(f.f)
@@ -501,7 +508,7 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
-	f.f, f.rqo, f.fc, f.rq = nil, nil, nil, nil
+	f.f, f.rqo, f.fc, f.sc, f.rq = nil, nil, nil, nil, nil
 	f.ft, f.tc = nil, nil
 
 	f.r = connRoot{}
@@ -571,26 +578,13 @@ func (f *fillHead) tryRequest() (fatal bool) {
 		return // no objects to request
 	}
 
-	if f.fc.Len() == 0 {
+	var c, ok = f.nextConn()
+
+	if ok == false {
 		fatal = (f.requesting == 0)
 		return // no connections to request from
 	}
 
-	var c = f.fc.Remove(f.fc.Front()).(*Conn) // unshift
-
-	// the c can be removed from the head, let's check it out
-
-	for _, ok := f.cs[c]; ok == false; _, ok = f.cs[c] {
-
-		if f.fc.Len() == 0 {
-			fatal = (f.requesting == 0)
-			return // no connections
-		}
-
-		c = f.fc.Remove(f.fc.Front()).(*Conn) // unshift next
-
-	}
-
 	var key = f.rqo.Remove(f.rqo.Front()).(cipher.SHA256) // unshift
 
 	// do the request
@@ -603,6 +597,35 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	return
 }
 
+// connection to request from
+func (f *fillHead) nextConn() (c *Conn, ok bool) {
+
+	for {
+
+		for f.fc.Len() > 0 {
+
+			c = f.fc.Remove(f.fc.Front()).(*Conn) // unshift
+
+			// the c can be removed from the head, let's check it out
+
+			if _, ok = f.cs[c]; ok == true {
+				return
+			}
+
+		}
+
+		// try slow connections again, if there are not others and
+		// there is not a newer Root that waits for the filling
+
+		if f.sc.Len() == 0 || f.requesting > 0 || f.p.r != nil {
+			return nil, false
+		}
+
+		f.fc, f.sc = f.sc, f.fc
+	}
+
+}
+
 // code readability
 func (f *fillHead) node() *Node {
 	return f.n.fs.n
@@ -652,6 +675,9 @@ func (f *fillHead) requestObject(c *Conn, key cipher.SHA256) (err error) {
 		return
 
 	case *msg.Err:
+		if x.Err == ErrTimeout.Error() {
+			return ErrTimeout
+		}
 		return errors.New(x.Err) // the peer doesn't have the object
 
 	default:
-- 
2.43.0


From b45040d2cbe06266c99a9780d8351558c3046d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:03 +0000
Subject: [PATCH 71/96] fix: don't confirm a subscription that is just
 cancelled

---
 node/conn.go  |  5 ++---
 node/feeds.go | 24 ++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 1deea29..3e4dd58 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -863,9 +863,8 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 	}
 
 	// check first
-	if c.n.fs.hasConnFeed(c, sub.Feed) == true {
-		c.n.fs.addConnFeed(c, sub.Feed, seq) // already subscribed
-		return
+	if c.n.fs.confirmConnFeed(c, sub.Feed, seq) == true {
+		return // already subscribed
 	}
 
 	// callback
diff --git a/node/feeds.go b/node/feeds.go
index 18afc9b..c26b9e4 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -21,6 +21,7 @@ type connFeed struct {
 
 	seq   uint32 // reply to Sub messege with the seq (if it is not zero)
 	unsub bool   // send Unsub messege
+	again bool   // only if the connection is subscribed already
 }
 
 // feeds of the Node
@@ -330,8 +331,21 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 func (n *nodeFeeds) addConnFeed(
 	c *Conn, pk cipher.PubKey, seq uint32) (ok bool) {
 
+	return n.requestConnFeed(connFeed{c: c, f: pk, seq: seq})
+}
+
+// (api) reply to the Sub messege with the seq if the connection is
+// subscribed to the feed, otherwise do nothing and return false
+func (n *nodeFeeds) confirmConnFeed(
+	c *Conn, pk cipher.PubKey, seq uint32) (ok bool) {
+
+	return n.requestConnFeed(connFeed{c: c, f: pk, seq: seq, again: true})
+}
+
+func (n *nodeFeeds) requestConnFeed(cf connFeed) (ok bool) {
+
 	select {
-	case n.addcfq <- connFeed{c: c, f: pk, seq: seq}:
+	case n.addcfq <- cf:
 	case <-n.closeq:
 		return
 	}
@@ -356,7 +370,13 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	// a closed connection can't be added, since it's deleted already
 
-	if ok = ok && cf.c.isClosed() == false; ok == true {
+	ok = ok && cf.c.isClosed() == false
+
+	if cf.again == true && (ok == false || nf.hasConn(cf.c) == false) {
+		ok, cf.seq = false, 0 // not subscribed
+	}
+
+	if ok == true {
 
 		if cf.f == (cipher.PubKey{}) {
 			n.addIdle(cf.c)
-- 
2.43.0


From 8e7f2c000da9dc579a344be6c2b08ca1c0f384e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 72/96] fix: both ends agree if a subscription is cancelled
 before it is accepted

---
 node/conn.go  | 36 +++++++++++++++++++++++++++---------
 node/feeds.go | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 3e4dd58..56b62e2 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -65,11 +65,14 @@ type Conn struct {
 	// request - response
 	seq  uint32             // messege seq number (for request-response)
 	reqs map[uint32]request // requests
+
+	unsubs map[cipher.PubKey]uint32 // Unsub messeges sent
 }
 
 type request struct {
 	rq  chan<- msg.Msg // response
 	sub cipher.PubKey  // feed of Sub request
+	num uint32         // the unsubs of the feed
 }
 
 func (n *Node) newConnection(
@@ -90,7 +93,8 @@ func (n *Node) newConnection(
 		sent:  make(map[rootHead]uint64),
 		outq:  make(chan struct{}, 1),
 
-		reqs: make(map[uint32]request),
+		reqs:   make(map[uint32]request),
+		unsubs: make(map[cipher.PubKey]uint32),
 	}
 
 	return c
@@ -371,9 +375,7 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
 		// the peer can accept the subscription later
-		if c.n.fs.hasConnFeed(c, feed) == false {
-			c.unsubscribe(feed)
-		}
+		c.n.fs.cancelConnFeed(c, feed)
 		return
 	}
 
@@ -400,6 +402,10 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 // just send the messege
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	c.unsubs[pk]++
 	c.sendMsg(c.nextSeq(), 0, &msg.Unsub{
 		Feed: pk,
 	})
@@ -691,19 +697,32 @@ func (c *Conn) handleResponse(r request, m msg.Msg) msg.Msg {
 		return m
 	}
 
-	if c.n.fs.addConnFeed(c, r.sub, 0) == false {
-		c.unsubscribe(r.sub)
+	if c.n.fs.acceptedConnFeed(c, &r) == false {
+		if c.isUnsubscribed(&r) == false {
+			c.unsubscribe(r.sub)
+		}
 		return &msg.Err{Err: errDontShare.Error()}
 	}
 
 	return m
 }
 
-func (c *Conn) addRequest(seq uint32, r request) {
+func (c *Conn) addRequest(seq uint32, r request, m msg.Msg) error {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	r.num = c.unsubs[r.sub]
 	c.reqs[seq] = r
+
+	return c.sendMsg(seq, 0, m)
+}
+
+// has the feed been unsubscribed after the Sub request?
+func (c *Conn) isUnsubscribed(r *request) bool {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	return c.unsubs[r.sub] != r.num
 }
 
 func (c *Conn) delRequest(seq uint32) (ok bool) {
@@ -751,10 +770,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		r.sub = sub.Feed
 	}
 
-	c.addRequest(seq, r)
 	defer c.delRequest(seq)
 
-	if err = c.sendMsg(seq, 0, m); err != nil {
+	if err = c.addRequest(seq, r, m); err != nil {
 		return
 	}
 
diff --git a/node/feeds.go b/node/feeds.go
index c26b9e4..6967335 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -22,6 +22,9 @@ type connFeed struct {
 	seq   uint32 // reply to Sub messege with the seq (if it is not zero)
 	unsub bool   // send Unsub messege
 	again bool   // only if the connection is subscribed already
+	away  bool   // only if the connection is not subscribed
+
+	req *request // the Sub request the connection added by
 }
 
 // feeds of the Node
@@ -342,6 +345,11 @@ func (n *nodeFeeds) confirmConnFeed(
 	return n.requestConnFeed(connFeed{c: c, f: pk, seq: seq, again: true})
 }
 
+// (api) the peer has accepted the Sub request
+func (n *nodeFeeds) acceptedConnFeed(c *Conn, r *request) (ok bool) {
+	return n.requestConnFeed(connFeed{c: c, f: r.sub, req: r})
+}
+
 func (n *nodeFeeds) requestConnFeed(cf connFeed) (ok bool) {
 
 	select {
@@ -376,6 +384,10 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 		ok, cf.seq = false, 0 // not subscribed
 	}
 
+	if cf.req != nil && cf.c.isUnsubscribed(cf.req) == true {
+		ok = false // unsubscribed after the request
+	}
+
 	if ok == true {
 
 		if cf.f == (cipher.PubKey{}) {
@@ -414,18 +426,35 @@ func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey, unsub bool) {
 
 }
 
+// (api) notify the peer, that can accept the Sub later, if
+// the connection is not subscribed to the feed
+func (n *nodeFeeds) cancelConnFeed(c *Conn, pk cipher.PubKey) {
+
+	select {
+	case n.delcfq <- connFeed{c: c, f: pk, unsub: true, away: true}:
+	case <-n.closeq:
+	}
+
+}
+
 // (handler)
 func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleDelConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	var nf, ok = n.fs[cf.f]
+
+	ok = ok && nf.hasConn(cf.c)
+
+	if ok == true && cf.away == true {
+		return // subscribed
+	}
+
 	if cf.unsub == true {
 		cf.c.unsubscribe(cf.f) // notify peer
 	}
 
-	var nf, ok = n.fs[cf.f]
-
-	if ok == false || nf.hasConn(cf.c) == false {
+	if ok == false {
 		return // no such feed, or the connection is not subscribed to it
 	}
 
-- 
2.43.0


From d22e01710ab6d8dd5114fd5dea8287d221cf2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 73/96] fix: a subscription accepted after the timeout is
 cancelled

---
 node/conn.go  | 76 +++++++++++++++++++++++++++++++++++++--------------
 node/feeds.go |  8 +++---
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 56b62e2..4d69aa6 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -374,8 +374,6 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
-		// the peer can accept the subscription later
-		c.n.fs.cancelConnFeed(c, feed)
 		return
 	}
 
@@ -663,7 +661,7 @@ func (c *Conn) receiveMsg() error {
 			if rseq != 0 {
 				// A response, that nobody waits for, is ignored.
 				if r, ok := c.takeRequest(rseq); ok == true {
-					r.rq <- c.handleResponse(r, msg)
+					c.handleResponse(r, msg)
 				}
 				continue
 			}
@@ -691,30 +689,71 @@ func (c *Conn) takeRequest(rseq uint32) (r request, ok bool) {
 
 // the peer sends Root objects just after the Ok, and the
 // connection should be added to the feed before them
-func (c *Conn) handleResponse(r request, m msg.Msg) msg.Msg {
+func (c *Conn) handleResponse(r request, m msg.Msg) {
 
-	if _, ok := m.(*msg.Ok); ok == false || r.sub == (cipher.PubKey{}) {
-		return m
-	}
+	if _, ok := m.(*msg.Ok); ok == true && r.sub != (cipher.PubKey{}) {
 
-	if c.n.fs.acceptedConnFeed(c, &r) == false {
-		if c.isUnsubscribed(&r) == false {
-			c.unsubscribe(r.sub)
+		if r.rq == nil {
+			c.n.fs.cancelConnFeed(c, r.sub) // too late
+		} else if c.n.fs.acceptedConnFeed(c, &r) == false {
+			if c.isUnsubscribed(&r) == false {
+				c.unsubscribe(r.sub)
+			}
+			m = &msg.Err{Err: errDontShare.Error()}
 		}
-		return &msg.Err{Err: errDontShare.Error()}
+
 	}
 
-	return m
+	if r.rq != nil {
+		r.rq <- m
+	}
 }
 
-func (c *Conn) addRequest(seq uint32, r request, m msg.Msg) error {
+func (c *Conn) addRequest(seq uint32, r request, m msg.Msg) (err error) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	if err = c.sendMsg(seq, 0, m); err != nil {
+		return
+	}
+
 	r.num = c.unsubs[r.sub]
 	c.reqs[seq] = r
+	return
+}
+
+// has the feed a Sub request without a response?
+func (c *Conn) isSubscribing(feed cipher.PubKey) bool {
+	c.mx.Lock()
+	defer c.mx.Unlock()
 
-	return c.sendMsg(seq, 0, m)
+	for _, r := range c.reqs {
+		if r.sub == feed {
+			return true
+		}
+	}
+	return false
+}
+
+// nobody waits for the response anymore, but a
+// response of a Sub request should be handled
+func (c *Conn) expireRequest(seq uint32) (ok bool) {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	var r request
+
+	if r, ok = c.reqs[seq]; ok == false {
+		return
+	}
+
+	delete(c.reqs, seq)
+
+	if r.sub != (cipher.PubKey{}) {
+		r.rq = nil
+		c.reqs[seq] = r
+	}
+	return
 }
 
 // has the feed been unsubscribed after the Sub request?
@@ -725,13 +764,11 @@ func (c *Conn) isUnsubscribed(r *request) bool {
 	return c.unsubs[r.sub] != r.num
 }
 
-func (c *Conn) delRequest(seq uint32) (ok bool) {
+func (c *Conn) delRequest(seq uint32) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	_, ok = c.reqs[seq]
 	delete(c.reqs, seq)
-	return
 }
 
 func (c *Conn) responseTimeout() (rt time.Duration) {
@@ -770,8 +807,6 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		r.sub = sub.Feed
 	}
 
-	defer c.delRequest(seq)
-
 	if err = c.addRequest(seq, r, m); err != nil {
 		return
 	}
@@ -782,7 +817,7 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 
 	case <-tc:
 
-		if c.delRequest(seq) == false {
+		if c.expireRequest(seq) == false {
 			reply = <-rq // the response has been received
 			return
 		}
@@ -790,6 +825,7 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		return nil, ErrTimeout
 
 	case <-c.closeq:
+		c.delRequest(seq)
 		return nil, ErrClosed
 	}
 
diff --git a/node/feeds.go b/node/feeds.go
index 6967335..b592e57 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -426,8 +426,8 @@ func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey, unsub bool) {
 
 }
 
-// (api) notify the peer, that can accept the Sub later, if
-// the connection is not subscribed to the feed
+// (api) notify the peer, that has accepted a Sub too late,
+// if the connection is not subscribed to the feed
 func (n *nodeFeeds) cancelConnFeed(c *Conn, pk cipher.PubKey) {
 
 	select {
@@ -446,8 +446,8 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	ok = ok && nf.hasConn(cf.c)
 
-	if ok == true && cf.away == true {
-		return // subscribed
+	if cf.away == true && (ok == true || cf.c.isSubscribing(cf.f) == true) {
+		return // subscribed, or will be subscribed
 	}
 
 	if cf.unsub == true {
-- 
2.43.0


From f813c3ccb10cc33d6ca85734bb76afc1a3f90b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 74/96] fix: a removed head is finished before the same head is
 created again

---
 node/feed.go  |  2 +-
 node/feeds.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++--
 node/head.go  | 18 ++++++++++++++++-
 3 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index 726bff3..392d154 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -83,7 +83,7 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 		}
 
-		nh = newNodeHead(n)
+		nh = newNodeHead(n, cr.r.Nonce)
 		n.hs[cr.r.Nonce] = nh
 		n.ho = append(n.ho, cr.r.Nonce) // push
 	}
diff --git a/node/feeds.go b/node/feeds.go
index b592e57..b84f750 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -73,8 +73,15 @@ type nodeFeeds struct {
 	closeo sync.Once      // once
 	closeq chan struct{}  // terminate
 
-	mx      sync.Mutex // lock the closing
-	closing bool       // don't add to the await anymore
+	mx      sync.Mutex             // lock fields below
+	closing bool                   // don't add to the await anymore
+	heads   map[rootHead]*headLock // running heads
+}
+
+// one head at the same time
+type headLock struct {
+	lock chan struct{}
+	refs int // running and waiting
 }
 
 func newNodeFeeds(node *Node) (n *nodeFeeds) {
@@ -125,6 +132,8 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 
 	n.closeq = make(chan struct{}) // terminate
 
+	n.heads = make(map[rootHead]*headLock)
+
 	n.await.Add(1)
 	go n.handle()
 
@@ -156,6 +165,49 @@ func (n *nodeFeeds) resume() (ok bool) {
 	return
 }
 
+// wait until there are no other heads for the same feed and nonce;
+// it returns false if given head is closed
+func (n *nodeFeeds) lockHead(nh *nodeHead) (ok bool) {
+	n.mx.Lock()
+
+	var hl = n.heads[nh.this]
+
+	if hl == nil {
+		hl = &headLock{lock: make(chan struct{}, 1)}
+		n.heads[nh.this] = hl
+	}
+
+	hl.refs++
+
+	n.mx.Unlock()
+
+	select {
+	case hl.lock <- struct{}{}:
+		return true
+	case <-nh.errq:
+	case <-nh.closeq:
+	}
+
+	n.releaseHead(nh)
+	return
+}
+
+func (n *nodeFeeds) unlockHead(nh *nodeHead) {
+	<-n.releaseHead(nh).lock
+}
+
+func (n *nodeFeeds) releaseHead(nh *nodeHead) (hl *headLock) {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	hl = n.heads[nh.this]
+
+	if hl.refs--; hl.refs == 0 {
+		delete(n.heads, nh.this)
+	}
+	return
+}
+
 func (n *nodeFeeds) terminate() {
 
 	for _, nf := range n.fs {
diff --git a/node/head.go b/node/head.go
index 3055a8c..681ded2 100644
--- a/node/head.go
+++ b/node/head.go
@@ -18,6 +18,8 @@ import (
 type nodeHead struct {
 	n *nodeFeed // back reference
 
+	this rootHead // this head
+
 	// the feeds send events to the head, and the head uses
 	// the feeds, thus the feeds should not wait for the head
 	mx  sync.Mutex
@@ -30,6 +32,7 @@ type nodeHead struct {
 	inforn chan *headInfo // info response
 
 	// closing
+	errq   chan struct{} // closed by error
 	closeo sync.Once     // close once
 	closeq chan struct{} // terminate
 }
@@ -41,17 +44,19 @@ type headEvent struct {
 	err error    // close with error (max heads limit)
 }
 
-func newNodeHead(nf *nodeFeed) (n *nodeHead) {
+func newNodeHead(nf *nodeFeed, nonce uint64) (n *nodeHead) {
 
 	n = new(nodeHead)
 
 	n.n = nf
+	n.this = rootHead{nf.this, nonce}
 
 	n.evq = make(chan struct{}, 1)
 
 	n.inforq = make(chan struct{})
 	n.inforn = make(chan *headInfo)
 
+	n.errq = make(chan struct{})
 	n.closeq = make(chan struct{})
 
 	nf.fs.await.Add(1)
@@ -100,6 +105,7 @@ func (n *nodeHead) takeEvent() (ev headEvent, ok bool) {
 // (api)
 func (n *nodeHead) closeByError(err error) {
 	n.addEvent(headEvent{err: err})
+	close(n.errq)
 }
 
 // (api)
@@ -218,6 +224,16 @@ func (n *nodeHead) handle() {
 
 	defer n.close()
 
+	// the same head can be removed and created again, and the
+	// old one should be finished before the new one started
+
+	if n.n.fs.lockHead(n) == false {
+		n.n.fs.await.Done()
+		return
+	}
+
+	defer n.n.fs.unlockHead(n)
+
 	var (
 		evq    = n.evq    //
 		closeq = n.closeq //
-- 
2.43.0


From a58461d2431bc6576dec580311e4e3b3f8e1b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:43 +0000
Subject: [PATCH 75/96] fix: a node does not accept its own identity from a
 peer

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index e0158d2..48a68f2 100644
--- a/node/node.go
+++ b/node/node.go
@@ -539,6 +539,10 @@ func (n *Node) addPeer(c *Conn, id cipher.PubKey) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if id == n.idpk {
+		return errors.New("connection to itself")
+	}
+
 	if p, ok := n.pkToConn[id]; ok && p != c {
 		return ErrAlreadyHaveConnection
 	}
-- 
2.43.0


From 4acd7d00f42ac0bdc38b047873240c72c5b002fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:09 +0000
Subject: [PATCH 76/96] fix: a root whose filling failed is sent again when it
 is filled at last

---
 node/conn.go  | 36 +++++++++++++++++++++++++-----------
 node/feed.go  |  2 +-
 node/feeds.go | 11 ++++++-----
 node/head.go  |  2 +-
 node/node.go  |  2 +-
 5 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 4d69aa6..609eb98 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -24,6 +24,12 @@ type rootHead struct {
 	nonce uint64
 }
 
+// last Root of a head sent to peer
+type sentRoot struct {
+	seq   uint64
+	again bool // filling of the Root started again after that
+}
+
 // a messege to send
 type outMsg struct {
 	raw  []byte   // encoded messege
@@ -49,10 +55,10 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
-	omx  sync.Mutex          // locks the out and the sent
-	out  []outMsg            // encoded messeges to send
-	sent map[rootHead]uint64 // last Root objects sent (seq)
-	outq chan struct{}       // there are messeges to send
+	omx  sync.Mutex            // locks the out and the sent
+	out  []outMsg              // encoded messeges to send
+	sent map[rootHead]sentRoot // last Root objects sent
+	outq chan struct{}         // there are messeges to send
 
 	// # stat
 	//
@@ -90,7 +96,7 @@ func (n *Node) newConnection(
 		closeq: make(chan struct{}),
 
 		sendq: fc.GetChanOut(),
-		sent:  make(map[rootHead]uint64),
+		sent:  make(map[rootHead]sentRoot),
 		outq:  make(chan struct{}, 1),
 
 		reqs:   make(map[uint32]request),
@@ -273,8 +279,10 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 
 // send given Root; a Root is never sent after newer one (and is never
 // sent twice) if it is not published by user explicitly; a Root that
-// is not sent yet is replaced with newer one
-func (c *Conn) sendRoot(r *registry.Root, publish bool) {
+// is not sent yet is replaced with newer one; a Root that was sent, but
+// filling of the Root failed and started again, is sent again if the
+// filling succeeds, because the peer probably failed too
+func (c *Conn) sendRoot(r *registry.Root, publish, full bool) {
 
 	var om = outMsg{
 		raw: c.encodeMsg(c.nextSeq(), 0, &msg.Root{
@@ -295,12 +303,18 @@ func (c *Conn) sendRoot(r *registry.Root, publish bool) {
 
 	var last, ok = c.sent[om.head]
 
-	if ok == true && om.seq <= last && publish == false {
-		return
+	if ok == true && om.seq <= last.seq && publish == false {
+		if om.seq < last.seq {
+			return
+		}
+		if last.again == false || full == false {
+			c.sent[om.head] = sentRoot{om.seq, full == false}
+			return
+		}
 	}
 
-	if ok == false || om.seq > last {
-		c.sent[om.head] = om.seq
+	if ok == false || om.seq >= last.seq {
+		c.sent[om.head] = sentRoot{seq: om.seq}
 	}
 
 	for i := range c.out {
diff --git a/node/feed.go b/node/feed.go
index 392d154..c8c106d 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -117,7 +117,7 @@ func (n *nodeFeed) broadcastRoot(cr connRoot) {
 			continue
 		}
 
-		c.sendRoot(cr.r, cr.c == nil)
+		c.sendRoot(cr.r, cr.c == nil, cr.full)
 	}
 
 }
diff --git a/node/feeds.go b/node/feeds.go
index b84f750..d2996bb 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -10,8 +10,9 @@ import (
 
 // connection and received Root
 type connRoot struct {
-	c *Conn
-	r *registry.Root
+	c    *Conn
+	r    *registry.Root
+	full bool // already filled
 }
 
 // connection and feed
@@ -561,7 +562,7 @@ func (n *nodeFeeds) handleBroadcastRoot(cr connRoot) {
 func (n *nodeFeeds) sendRoot(c *Conn, r *registry.Root) {
 
 	select {
-	case n.sndrq <- connRoot{c, r}:
+	case n.sndrq <- connRoot{c: c, r: r}:
 	case <-n.closeq:
 	}
 
@@ -571,7 +572,7 @@ func (n *nodeFeeds) sendRoot(c *Conn, r *registry.Root) {
 func (n *nodeFeeds) handleSendRoot(cr connRoot) {
 
 	if nf, ok := n.fs[cr.r.Pub]; ok == true && nf.hasConn(cr.c) == true {
-		cr.c.sendRoot(cr.r, false)
+		cr.c.sendRoot(cr.r, false, true)
 	}
 
 }
@@ -597,7 +598,7 @@ func (n *nodeFeeds) handleDelConn(c *Conn) {
 func (n *nodeFeeds) receivedRoot(c *Conn, r *registry.Root) {
 
 	select {
-	case n.rrq <- connRoot{c, r}:
+	case n.rrq <- connRoot{c: c, r: r}:
 	case <-n.closeq:
 	}
 
diff --git a/node/head.go b/node/head.go
index 681ded2..58b7140 100644
--- a/node/head.go
+++ b/node/head.go
@@ -546,7 +546,7 @@ func (f *fillHead) handleFillingResult(err error) {
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
 
 		// send to peers that subscribed while the Root was filling
-		f.nodeHead.n.fs.broadcastRoot(f.r)
+		f.nodeHead.n.fs.broadcastRoot(connRoot{c: f.r.c, r: f.r.r, full: true})
 	} else {
 		ok = f.callback(func() {
 			f.node().onFillingBreaks(f.r.r, err) // callback
diff --git a/node/node.go b/node/node.go
index 48a68f2..75199e1 100644
--- a/node/node.go
+++ b/node/node.go
@@ -254,7 +254,7 @@ func (n *Node) Container() (c *skyobject.Container) {
 // And don't call the publish for Root objects that
 // alredy saved (that saved before subscription)
 func (n *Node) Publish(r *registry.Root) {
-	n.fs.broadcastRoot(connRoot{nil, r})
+	n.fs.broadcastRoot(connRoot{r: r})
 }
 
 // ConnectionsOfFeed returns list of connections of given
-- 
2.43.0


From 164632ad08d1ea83f97a9460b9bdd34e94fa60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:51 +0000
Subject: [PATCH 77/96] fix: a root with other bytes than its own encoding is
 not accepted

---
 skyobject/registry/root.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 3f60d78..e151f23 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -1,6 +1,8 @@
 package registry
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -78,11 +80,16 @@ func (r *Root) String() string {
 		r.Hash.Hex()[:7])
 }
 
-// DecodeRoot decodes and encoded Root object
+// DecodeRoot decodes and encoded Root object. The val must
+// be exactly what the Encode method of the Root returns,
+// otherwise the hash of the Root would be another one
 func DecodeRoot(val []byte) (r *Root, err error) {
 	r = new(Root)
 	if _, err = encoder.DeserializeRaw(val, r); err != nil {
-		r = nil
+		return nil, err
+	}
+	if bytes.Equal(r.Encode(), val) == false {
+		return nil, errors.New("malformed encoded Root")
 	}
 	return
 }
-- 
2.43.0


From 4da428bf91badde6585e93b8fe242f2f8494c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:55 +0000
Subject: [PATCH 78/96] fix: the tree of a Root with a slice or an array of
 structures was a panic

---
 skyobject/registry/root_tree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index cc0df01..d85bda4 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -440,7 +440,7 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 
 	var m, s, k int
 
-	if s = fixedSize(el.Kind()); s < 0 {
+	if s = fixedSize(el.Kind()); s > 0 {
 
 		for k = 0; k < ln; k++ {
 
@@ -475,6 +475,9 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			}
 
 			if m, err = el.Size(val[shift:]); err != nil {
+				it.Items = append(it.Items, &gotree.GTStructure{
+					Name: "(err) " + err.Error(),
+				})
 				return
 			}
 
@@ -484,6 +487,10 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			)
 			shift += m
 
+			if m == 0 {
+				return // all elements have zero size
+			}
+
 		}
 
 	}
-- 
2.43.0


From 1a25ef82d1f48fef4aed7c244d7a580f489f4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:52 +0000
Subject: [PATCH 79/96] fix: statistics show the first root of a head that has
 one root only

---
 skyobject/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 181fcc0..0e61591 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -162,7 +162,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				// first
 
-				if sh.Len > 1 {
+				if sh.Len > 0 {
 
 					roots.Ascend(func(dr *data.Root) (err error) {
 
-- 
2.43.0


From ca0aa50689e500d544ed61e5d3fe27df7eb18b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 80/96] fix: closing the object store on drive waits for its
 readers

---
 data/cxds/drive.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index abf931d..a4b92ab 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -59,6 +59,10 @@ func (d *driveStat) decode(val []byte) (err error) {
 type driveCXDS struct {
 	b *bolt.DB
 
+	rmx    sync.Mutex
+	closed bool           // closing or closed
+	reads  sync.WaitGroup // read-only transactions
+
 	mx     sync.Mutex
 	unsafe bool // has not been closed properly last time
 }
@@ -254,6 +258,28 @@ func (d *driveCXDS) update(
 
 }
 
+// read-only transaction; the bolt doesn't wait for
+// them closing the DB and unmaps its memory at once,
+// thus the Close has to wait
+func (d *driveCXDS) read(
+	readFunc func(tx *bolt.Tx) (err error),
+) (
+	err error,
+) {
+
+	d.rmx.Lock()
+	if d.closed == true {
+		d.rmx.Unlock()
+		return bolt.ErrDatabaseNotOpen
+	}
+	d.reads.Add(1)
+	d.rmx.Unlock()
+
+	defer d.reads.Done()
+
+	return d.b.View(readFunc)
+}
+
 // view objects
 func (d *driveCXDS) view(
 	viewFunc func(o *bolt.Bucket, stat *driveStat) (err error),
@@ -261,7 +287,7 @@ func (d *driveCXDS) view(
 	err error,
 ) {
 
-	return d.b.View(func(tx *bolt.Tx) (err error) {
+	return d.read(func(tx *bolt.Tx) (err error) {
 		return viewFunc(tx.Bucket(objsBucket), new(driveStat))
 	})
 
@@ -271,7 +297,7 @@ func (d *driveCXDS) view(
 // zeroes if the DB is already closed
 func (d *driveCXDS) stat() (stat driveStat) {
 
-	d.b.View(func(tx *bolt.Tx) (err error) {
+	d.read(func(tx *bolt.Tx) (err error) {
 		return stat.decode(tx.Bucket(metaBucket).Get(statKey))
 	})
 
@@ -456,7 +482,7 @@ func (d *driveCXDS) Del(
 // Iterate all keys
 func (d *driveCXDS) Iterate(iterateFunc data.IterateObjectsFunc) (err error) {
 
-	err = d.b.View(func(tx *bolt.Tx) (err error) {
+	err = d.read(func(tx *bolt.Tx) (err error) {
 
 		var (
 			key cipher.SHA256
@@ -582,6 +608,14 @@ func (d *driveCXDS) Close() (err error) {
 		})
 	}
 
+	// wait for readers, refusing new ones
+
+	d.rmx.Lock()
+	d.closed = true
+	d.rmx.Unlock()
+
+	d.reads.Wait()
+
 	return d.b.Close()
 }
 
-- 
2.43.0


From 2ea59db1373378141ef3ec4e680b4d39e2b702d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 81/96] fix: a Refs that failed to load stays not initialized

---
 skyobject/registry/refs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..9d74bc3 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -82,6 +82,15 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return // already initialized
 	}
 
+	// if the loading fails, then the Refs is not initialized
+	// and next call will try to load it again
+
+	defer func() {
+		if err != nil {
+			r.refsNode, r.refsIndex = nil, nil
+		}
+	}()
+
 	// r.refsNode.hash is always blank
 	r.refsNode = new(refsNode)
 
-- 
2.43.0


From 3748bb91ccce5e2ce54d77628f970d356ed4cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 82/96] fix: append to a Refs updates hashes of all nodes it
 changes

---
 skyobject/registry/refs.go      | 34 ++++++--------------------
 skyobject/registry/refs_node.go | 43 ++++++---------------------------
 2 files changed, 15 insertions(+), 62 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 9d74bc3..1943f49 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1297,9 +1297,8 @@ func (r *Refs) hasEnoughFreeSpaceOnTail(
 }
 
 type appendPoint struct {
-	rn       *refsNode // current node
-	depth    int       // depth of the rn
-	increase int       // length diff for current subtree
+	rn    *refsNode // current node
+	depth int       // depth of the rn
 }
 
 // appendFunc returns an IterateFunc that appends
@@ -1330,9 +1329,8 @@ func (r *Refs) appnedFunc(
 	// append point
 
 	var ap = appendPoint{
-		rn:       r.refsNode,
-		depth:    r.depth,
-		increase: 0,
+		rn:    r.refsNode,
+		depth: r.depth,
 	}
 
 	iter = func(_ int, hash cipher.SHA256) (err error) {
@@ -1345,28 +1343,12 @@ func (r *Refs) appnedFunc(
 
 	fini = func() (err error) {
 
-		if ap.increase == 0 {
-			return // nothing to finialize
-		}
-
-		// ap.increase > 0, ap.rn contains leafs
-
-		for ; ap.rn != nil; ap.rn, ap.depth = ap.rn.upper, ap.depth+1 {
-
-			if ap.depth > 0 {
-				ap.rn.length += ap.increase
-			}
-
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
-				return // saving error
-			}
-
-		}
-
 		// TODO (kostyarin): LazyUpdating
 
-		err = r.updateHashIfNeed(pack, true)
-		return
+		// update hashes of all modified nodes, including
+		// nodes modified before if the LazyUpdating flag set
+
+		return r.walkUpdating(pack)
 
 	}
 
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..d75ed97 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1096,40 +1096,14 @@ func (r *Refs) appendNodeGoUp(
 		panic("invalid case")
 	}
 
-	// bubble the length increasing first
-	if ap.increase > 0 {
-		for up := ap.rn.upper; up != nil; up = up.upper {
-			up.length += ap.increase // add
-		}
-	}
-
 	ap.rn, ap.depth = ap.rn.upper, ap.depth+1 // use upper node
 
 	// since we are using ap.rn.upper, then the ap.depth
 	// is > 0 and the ap.rn.upper contains branches
 	if len(ap.rn.branches) == int(r.degree) {
-
-		// not increased (idle pass)
-		if ap.increase == 0 {
-			return r.appendNodeGoUp(pack, ap, hash) // go up
-		}
-
-		ap.increase = 0 // reset
-
-		// TODO (kostyarin): LazyUpdating
-
-		// else -> increased
-		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
-			return // saving error
-		}
-
 		return r.appendNodeGoUp(pack, ap, hash) // go up
-
 	}
 
-	ap.increase = 0 // reset
-
-	// the ap.increase has been bubbled up and reset;
 	// here ap.rn doesn't contain all branches; let's
 	// append new one
 
@@ -1162,14 +1136,7 @@ func (r *Refs) appendNode(
 	if ap.depth == 0 { // leafs
 
 		if len(ap.rn.leafs) == int(r.degree) { // full
-
-			// TODO (kostyarin): LazyUpdating
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
-				return // saving error
-			}
-
 			return r.appendNodeGoUp(pack, ap, hash) // go up
-
 		}
 
 		var el = &refsElement{
@@ -1182,11 +1149,15 @@ func (r *Refs) appendNode(
 		}
 
 		ap.rn.leafs = append(ap.rn.leafs, el)
-		ap.rn.length++ // add
 
-		// TODO (kostyarin): LazyUpdating
+		// the node and all nodes above contain one more element;
+		// hashes of the nodes will be updated by the fini function
+		// (see appnedFunc)
 
-		ap.increase++ // increase the length
+		for up := ap.rn; up != nil; up = up.upper {
+			up.length++
+			up.mods |= contentMod
+		}
 
 		return nil // the same point
 
-- 
2.43.0


From 9ba290437ac0d705a60c107765bb1a2df54c326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 83/96] fix: SetDegree keeps degree of a Refs with unsaved
 elements consistent

---
 skyobject/registry/refs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 1943f49..19d5e3e 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -181,7 +181,10 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 		return
 	}
 
-	if r.Hash == (cipher.SHA256{}) {
+	// the Hash can be blank, while the Refs contains elements, if
+	// the LazyUpdating flag set; and vice versa; since use the length
+
+	if r.length == 0 && r.depth == 0 {
 		r.degree = degree
 		return // it's enough
 	}
-- 
2.43.0


From 48dfc286e0f3ca4577b1a370cd0c2f52182c981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 84/96] fix: modifying a Refs inside an iteration

---
 skyobject/registry/refs.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 19d5e3e..b522d5e 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -200,6 +200,8 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 
 	*r = *nr
 
+	r.rewindIterators() // for iterators
+
 	return
 }
 
@@ -842,6 +844,9 @@ func (r *Refs) startIteration() {
 // stopIteration method should be called using
 // defer statement
 func (r *Refs) stopIteration() {
+	// if the iteration has been stopped by an error after
+	// changes of the Refs, then pass the changes to next
+	r.isFindingIteratorsIndexFromRootRequired()
 	r.iterators = r.iterators[:len(r.iterators)-1]
 }
 
@@ -918,7 +923,13 @@ func (r *Refs) ascendFrom(
 		// so, we need to find next element from root of the Refs
 		if rewind == true {
 			i += pass // shift the i to don't repeat elements
-			continue  // find next index from root of the Refs
+
+			// the Refs can be cleared by the ascendFunc
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
+			continue // find next index from root of the Refs
 		}
 
 		// the loop is necessary for rewinding only
@@ -1014,6 +1025,11 @@ func (r *Refs) descendFrom(
 		if rewind == true {
 			i -= pass // shift the i to don't repeat elements
 
+			// the Refs can be cleared by the descendFunc
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
 			// if the length has been changed
 			if i >= r.length {
 				return ErrIndexOutOfRange // out
@@ -1449,7 +1465,10 @@ func (r *Refs) Append(
 			return // error
 		}
 
-		*r = *nr // replace this Refs with new extended
+		nr.iterators = r.iterators // copy iterators
+		*r = *nr                   // replace this Refs with new extended
+
+		r.rewindIterators() // for iterators
 
 		return // done
 
@@ -1467,6 +1486,8 @@ func (r *Refs) Append(
 		return
 	}
 
+	r.rewindIterators() // for iterators
+
 	return // done
 
 }
@@ -1588,6 +1609,8 @@ func (r *Refs) AppendHashes(
 		nr.iterators = r.iterators // copy iterators
 		*r = *nr                   // replace this Refs with new extended
 
+		r.rewindIterators() // for iterators
+
 		return // done
 
 	}
@@ -1608,13 +1631,16 @@ func (r *Refs) AppendHashes(
 		return // error
 	}
 
+	r.rewindIterators() // for iterators
+
 	return // done
 
 }
 
 // Clear the Refs making it blank
 func (r *Refs) Clear() {
-	*r = Refs{}
+	*r = Refs{iterators: r.iterators} // keep iterators
+	r.rewindIterators()               // for iterators
 }
 
 // Rebuild the Refs if need. The Refs can contain
-- 
2.43.0


From 0dc2146a9b3e9e689ba1d34339732fed49b16e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 85/96] fix: broken Refs causes an error instead of panic

---
 skyobject/registry/refs_node.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index d75ed97..ba1f0b4 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -318,8 +318,7 @@ func (r *Refs) elementByIndex(
 
 	// else, take a look at branches
 
-	var br *refsNode
-	for _, br = range rn.branches {
+	for _, br := range rn.branches {
 
 		if err = r.loadNodeIfNeed(pack, br, depth-1); err != nil {
 			return
@@ -330,10 +329,11 @@ func (r *Refs) elementByIndex(
 			continue       // and skip the branch
 		}
 
-		break // the branch that contains the needle has been found
+		// the branch that contains the needle has been found
+		return r.elementByIndex(pack, br, i, depth-1)
 	}
 
-	return r.elementByIndex(pack, br, i, depth-1)
+	return nil, ErrInvalidRefs // can't find the element
 }
 
 //
@@ -517,7 +517,7 @@ func (r *Refs) deleteElementByIndex(
 
 	// else, take a look at branches
 
-	var br *refsNode
+	var br, needle *refsNode
 	for j, br = range rn.branches {
 
 		if err = r.loadNodeIfNeed(pack, br, depth-1); err != nil {
@@ -529,9 +529,14 @@ func (r *Refs) deleteElementByIndex(
 			continue       // and skip the branch
 		}
 
+		needle = br
 		break // the branch that contains the needle has been found
 	}
 
+	if needle == nil {
+		return ErrInvalidRefs // can't find the element
+	}
+
 	// keep j for now
 
 	if err = r.deleteElementByIndex(pack, br, i, depth-1); err != nil {
-- 
2.43.0


From ec1d8a01c5c5c61e9484c3ad25fc8674b9009b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 86/96] fix: ErrStopIteration stops entire Refs.Walk

---
 skyobject/registry/refs_walk.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..93b39d2 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -193,10 +193,6 @@ func (r *Refs) walkNode(
 		for _, leaf := range rn.leafs {
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
-
-				if err == ErrStopIteration {
-					err = nil
-				}
 				return
 
 			} else if deepper == true {
@@ -204,9 +200,6 @@ func (r *Refs) walkNode(
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
 				if err != nil {
-					if err == ErrStopIteration {
-						err = nil
-					}
 					return
 				}
 
@@ -226,9 +219,6 @@ func (r *Refs) walkNode(
 		// leafs
 
 		if deepper, err = walkFunc(br.hash, depth); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		} else if deepper == false {
 			continue // let's look at the next brnahc
@@ -241,9 +231,6 @@ func (r *Refs) walkNode(
 		}
 
 		if err = r.walkNode(pack, sch, br, depth-1, walkFunc); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		}
 
-- 
2.43.0


From 5903deaa0d16f723627df9bc3d51d784de0f8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 87/96] fix: Refs.Walk updates hashes of a modified Refs

---
 skyobject/registry/refs_walk.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 93b39d2..e467d60 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -148,6 +148,19 @@ func (r *Refs) Walk(
 			return
 		}
 
+	} else if r.mods&contentMod != 0 {
+
+		// the Refs contains changes that are not saved yet
+		// (see LazyUpdating flag)
+
+		if err = r.walkUpdating(pack); err != nil {
+			return // an error
+		}
+
+		if r.Hash == (cipher.SHA256{}) {
+			return r.walkBlank(walkFunc) // everything has been deleted
+		}
+
 	}
 
 	// ok, let's walk
-- 
2.43.0


From b92cb70618898efb5b6886558ce6ce0f3847de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:22 +0000
Subject: [PATCH 88/96] fix: DeleteByHash keeps unsaved changes of a lazy
 updating Refs

---
 skyobject/registry/refs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index b522d5e..fd36e8b 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -744,7 +744,8 @@ func (r *Refs) deleteByHashUsingHashTable(
 	delete(r.refsIndex, hash) // remove all from the index
 
 	for _, el := range els {
-		if err = r.deleteElement(pack, el, one); err != nil {
+		err = r.deleteElement(pack, el, one && r.flags&LazyUpdating == 0)
+		if err != nil {
 			return // error
 		}
 	}
-- 
2.43.0


From 977e30d085920bf332db2453c3d1d7c2f30b8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:39 +0000
Subject: [PATCH 89/96] fix: modifying a Refs with a wrong length causes an
 error instead of panic

---
 skyobject/registry/refs.go      |  2 +-
 skyobject/registry/refs_node.go | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index fd36e8b..851a0c4 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1186,7 +1186,7 @@ func (r *Refs) appnedCreatingSliceFunc(j int) (iter IterateFunc) {
 		}
 
 		// the call will panic if the slice (the r) is invalid
-		cn, depth = r.appendCreatingSliceNode(cn, depth, hash)
+		cn, depth, err = r.appendCreatingSliceNode(cn, depth, hash)
 
 		return // continue
 	}
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index ba1f0b4..64c43e3 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -877,6 +877,7 @@ func (r *Refs) appendCreatingSliceNodeGoUp(
 ) (
 	cn *refsNode, //       : current node (can be another then the rn)
 	cdepth int, //         : current depth (depth of the cn)
+	err error, //          : invalid Refs
 ) {
 
 	for {
@@ -890,9 +891,9 @@ func (r *Refs) appendCreatingSliceNodeGoUp(
 			// since, we have to add a new hash to the slice (to the r),
 			// then the full rn (and the rn is full here) must have
 			// upper node to add another one go or upper; e.g. if
-			// the rn.upper is nil, then this case is invalid and
-			// this case should produce panicing
-			panic("invalid case")
+			// the rn.upper is nil, then this case is invalid: real
+			// length of the Refs is not the length it contains
+			return rn, depth, ErrInvalidRefs
 		}
 
 		rn, depth = rn.upper, depth+1 // go up
@@ -927,6 +928,7 @@ func (r *Refs) appendCreatingSliceNode(
 ) (
 	cn *refsNode, //       : current node (can be another then the rn)
 	cdepth int, //         : current depth (depth of the cn)
+	err error, //          : invalid Refs
 ) {
 
 	if depth == 0 { // leafs
@@ -946,7 +948,7 @@ func (r *Refs) appendCreatingSliceNode(
 
 		rn.leafs = append(rn.leafs, el)
 
-		return rn, depth // the same
+		return rn, depth, nil // the same
 	}
 
 	// else if depth > 0 { branches }
@@ -1096,9 +1098,9 @@ func (r *Refs) appendNodeGoUp(
 		// since, we have to add a new hash to the slice (to the r),
 		// then the full rn (and the rn is full here) must have
 		// upper node to add another one go or upper; e.g. if
-		// the rn.upper is nil, then this case is invalid and
-		// this case should produce panicing
-		panic("invalid case")
+		// the rn.upper is nil, then this case is invalid: real
+		// length of the Refs is not the length it contains
+		return ErrInvalidRefs
 	}
 
 	ap.rn, ap.depth = ap.rn.upper, ap.depth+1 // use upper node
-- 
2.43.0


From b0a7ea7c950d409b8cf33d54dbb14db27abc2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:34 +0000
Subject: [PATCH 90/96] fix: updating hashes of a Refs inside an iteration

---
 skyobject/registry/refs_node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 64c43e3..3a4b0dc 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1258,6 +1258,7 @@ func (r *Refs) walkUpdatingNode(
 			if br.mods&loadedMod != 0 && br.length == 0 {
 				rn.deleteNodeByIndex(i)
 				i--
+				r.rewindIterators() // for iterators
 			}
 
 		}
-- 
2.43.0


From 34fe29725484df1c3c9255c67018f976b860637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:34 +0000
Subject: [PATCH 91/96] fix: refuse a Refs of an impossible depth

---
 skyobject/registry/refs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 851a0c4..4b6ced1 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -116,6 +116,11 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return // get or decoding error
 	}
 
+	// the length is uint32, thus the depth can't be greater
+	if er.Depth >= 32 {
+		return ErrInvalidEncodedRefs // invalid state
+	}
+
 	r.depth = int(er.Depth)
 	r.degree = Degree(er.Degree) // overwrite from saved
 
-- 
2.43.0


From 70ba9b120964496aed2cecbe2599d3909fb02a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:34 +0000
Subject: [PATCH 92/96] fix: a Refs remembers changes it failed to save

---
 skyobject/registry/refs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 4b6ced1..e344522 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -613,7 +613,8 @@ func (r *Refs) updateHash(pack Pack) (err error) {
 	if r.Hash != hash {
 
 		if err = pack.Set(hash, val); err != nil {
-			return // saving error
+			r.mods |= contentMod // modified, but not saved
+			return               // saving error
 		}
 
 		r.Hash = hash
-- 
2.43.0


From 53f82c9a27003d7cd4c1e6e7e9f92711feb9ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:42 +0000
Subject: [PATCH 93/96] fix: refuse a malformed registry, that can be taken for
 another one

---
 skyobject/registry/registry.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index ab4c949..5c89f5d 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -1,6 +1,8 @@
 package registry
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -67,6 +69,14 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	}
 
 	r.finialize()
+
+	// hash of the Registry must be hash of its encoded value; otherwise,
+	// the Registry can be used instead of another one
+
+	if bytes.Equal(r.Encode(), b) == false {
+		return nil, errors.New("malformed encoded Registry")
+	}
+
 	return
 }
 
-- 
2.43.0


From 911e0c4e9b7a0dcb0d0bd2dab72789813715eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:43 +0000
Subject: [PATCH 94/96] fix: swarm: peers without addresses are not the node
 itself; addresses are validated as they are stored

---
 node/swarm.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index d7b1200..755da79 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"net"
-	"regexp"
 	"strconv"
 	"strings"
 	"sync"
@@ -362,10 +361,11 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	// a peer without an address is not the node that doesn't listen
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
@@ -604,18 +604,16 @@ func (s *Swarm) validatePeer(pk cipher.PubKey, tcp, udp string) error {
 }
 
 func validateAddress(addr string) error {
-	var (
-		whitespaceFilter = regexp.MustCompile(`\s`)
-		ipPort           = whitespaceFilter.ReplaceAllString(addr, "")
-		split            = strings.Split(ipPort, ":")
-	)
+	// the address is used as is
+	var split = strings.Split(addr, ":")
+
 	if len(split) != 2 {
 		return errors.New("invalid format")
 	}
 	if ip := net.ParseIP(split[0]); ip == nil {
 		return errors.New("invalid ip")
 	}
-	if _, err := strconv.ParseUint(split[1], 10, 16); err != nil {
+	if port, err := strconv.ParseUint(split[1], 10, 16); err != nil || port == 0 {
 		return errors.New("invlaid port")
 	}
 
-- 
2.43.0


From e1c5842bd03c8557e59e8cdf42a6799049eeb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:43 +0000
Subject: [PATCH 95/96] fix: swarm: a full table refreshes known peers; new
 peers are seen; lists of other feeds are ignored; retries are reset

---
 node/swarm.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 755da79..77094a4 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -138,7 +138,7 @@ func (s *Swarm) AddPeer(
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if uint64(len(s.peers)) >= s.cfg.MaxPeers {
+	if _, ok := s.peers[pk]; !ok && uint64(len(s.peers)) >= s.cfg.MaxPeers {
 		return fmt.Errorf("maximum number of peers exceeded")
 	}
 
@@ -259,6 +259,7 @@ func (s *Swarm) requestPeers() {
 			case *msg.Peers:
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
+					break
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
 				}
 				s.addPeers(m.List)
@@ -297,12 +298,6 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	s.node.Debugf(PEXPin, "adding %d peers for feed %s",
 		len(peers), s.feed.Hex()[:8])
 
-	if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
-		s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
-			s.feed.Hex()[:8])
-		return
-	}
-
 	// Validate peers
 	var validPeers []msg.PeerInfo
 	for _, pi := range peers {
@@ -322,14 +317,6 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	mathrand.Shuffle(len(peers), func(i, j int) {
 		peers[i], peers[j] = peers[j], peers[i]
 	})
-	if s.cfg.MaxPeers > 0 {
-		rcap := s.cfg.MaxPeers - uint64(len(s.peers))
-		if uint64(len(peers)) > rcap {
-			s.node.Debugf(PEXPin, "capping number of peers to be added for feed %s to %d",
-				s.feed.Hex()[:8], rcap)
-			peers = peers[:rcap]
-		}
-	}
 
 	// Update existing peers or add new one
 	for _, pi := range peers {
@@ -345,11 +332,16 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 
 				s.onPeerUpdated(p)
 			}
+		} else if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
+			s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
+				s.feed.Hex()[:8])
+			continue
 		} else {
 			s.node.Debugf(PEXPin, "adding new peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
@@ -506,7 +498,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
-- 
2.43.0


From 251fefb7dcaa87389382e13d04abce1310a92f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:43 +0000
Subject: [PATCH 96/96] fix: swarm: connected peers don't expire

---
 node/swarm.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/node/swarm.go b/node/swarm.go
index 77094a4..25b47bc 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -365,11 +365,22 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 }
 
 func (s *Swarm) clearOldPeers() {
+	// lists of peers aren't requested while there are enough
+	// of them, but a connected peer is alive
+	conns := s.node.ConnectionsOfFeed(s.feed)
+
 	now := time.Now()
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	for _, c := range conns {
+		if p, ok := s.peers[c.PeerID()]; ok {
+			p.seen()
+			s.peers[p.PubKey] = p
+		}
+	}
+
 	for _, p := range s.peers {
 		if now.Sub(p.LastSeen) > s.cfg.PeerExpirePeriod {
 			s.node.Debugf(PEXPin, "removing expired peer %s from feed %s",
-- 
2.43.0

