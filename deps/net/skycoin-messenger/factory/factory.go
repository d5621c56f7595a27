// Package factory is a stand-in for github.com/skycoin/net/skycoin-messenger/factory (not available offline). It only
// provides node identities; a discovery server can't be reached through it.
package factory

import (
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

// SeedConfig is the identity of a node.
type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
	secKey    cipher.SecKey
	publicKey cipher.PubKey
}

// NewSeedConfig creates a random identity.
func NewSeedConfig() (*SeedConfig, error) {
	var b [32]byte
	if _, err := rand.Read(b[:]); err != nil {
		return nil, err
	}
	return SecKeyToSeedConfig(cipher.SecKey(sha256.Sum256(b[:])))
}

// SecKeyToSeedConfig makes the identity of a secret key.
func SecKeyToSeedConfig(sk cipher.SecKey) (*SeedConfig, error) {
	pk := cipher.PubKeyFromSecKey(sk)
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex(), secKey: sk, publicKey: pk}, nil
}

// Level of logging.
type Level uint8

// Levels.
const (
	ErrorLevel Level = iota
	DebugLevel
)

// NodeInfo of a service node.
type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}

// ServiceInfo of a service.
type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}

// QueryResp is a reply of the discovery server.
type QueryResp struct{ Result []*ServiceInfo }

// Service provided by a node.
type Service struct{ Key cipher.PubKey }

// NodeServices is what a node provides.
type NodeServices struct {
	ServiceAddress string
	Services       []*Service
}

// ConnConfig of a discovery connection.
type ConnConfig struct {
	SeedConfig                     *SeedConfig
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(resp *QueryResp)
	OnConnected                    func(c *Connection)
}

// Connection to a discovery server.
type Connection struct{}

// FindServiceNodesByKeys asks for nodes.
func (c *Connection) FindServiceNodesByKeys(keys []cipher.PubKey) error { return errUnavailable }

// UpdateServices tells about services.
func (c *Connection) UpdateServices(ns *NodeServices) error { return errUnavailable }

var errUnavailable = errors.New("discovery is not available")

// MessengerFactory is the discovery client.
type MessengerFactory struct{}

// NewMessengerFactory creates it.
func NewMessengerFactory() *MessengerFactory { return new(MessengerFactory) }

// SetLoggerLevel does nothing.
func (m *MessengerFactory) SetLoggerLevel(Level) {}

// ConnectWithConfig fails.
func (m *MessengerFactory) ConnectWithConfig(address string, config *ConnConfig) error {
	return errUnavailable
}

// ForEachConn calls f for every connection.
func (m *MessengerFactory) ForEachConn(f func(c *Connection)) {}

// Close the client.
func (m *MessengerFactory) Close() error { return nil }
