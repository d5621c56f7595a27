//go:build sim

package bolt

import (
	"os"
	"time"
	"unsafe"

	"simrt/simos"
)

// This file replaces bolt_unix.go and bolt_linux.go of boltdb v1.3.1; every other file is as released.

func flock(db *DB, mode os.FileMode, exclusive bool, timeout time.Duration) error {
	var t time.Time
	for {
		if t.IsZero() {
			t = time.Now()
		} else if timeout > 0 && time.Since(t) > timeout {
			return ErrTimeout
		}
		if simos.Flock(db.file) {
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func funlock(db *DB) error {
	simos.Funlock(db.file)
	return nil
}

func mmap(db *DB, sz int) error {
	b, err := simos.Mmap(db.file, sz)
	if err != nil {
		return err
	}
	db.dataref = b
	db.data = (*[maxMapSize]byte)(unsafe.Pointer(&b[0]))
	db.datasz = sz
	return nil
}

func munmap(db *DB) error {
	if db.dataref == nil {
		return nil
	}
	simos.Munmap(db.file, db.dataref)
	db.dataref = nil
	db.data = nil
	db.datasz = 0
	return nil
}

func fdatasync(db *DB) error { return simos.Fdatasync(db.file) }
