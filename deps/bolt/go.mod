module github.com/boltdb/bolt

go 1.23
