module github.com/skycoin/net

go 1.23
