// Package cipher is a stand-in for github.com/skycoin/skycoin/src/cipher (not available offline): the same types and
// functions over SHA-256 and Ed25519 instead of secp256k1.
package cipher

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
)

// SHA256 hash.
type SHA256 [32]byte

// Hex representation.
func (h SHA256) Hex() string { return hex.EncodeToString(h[:]) }

// Set from bytes.
func (h *SHA256) Set(b []byte) {
	if len(b) != 32 {
		panic("Invalid sha256 length")
	}
	copy(h[:], b)
}

// SumSHA256 of data.
func SumSHA256(b []byte) SHA256 { return SHA256(sha256.Sum256(b)) }

// SHA256FromHex decodes.
func SHA256FromHex(s string) (h SHA256, err error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return
	}
	if len(b) != 32 {
		return h, errors.New("Invalid hex length")
	}
	copy(h[:], b)
	return
}

// PubKey is a public key.
type PubKey [33]byte

// SecKey is a secret key.
type SecKey [32]byte

// Sig is a signature.
type Sig [65]byte

// Hex representation.
func (k PubKey) Hex() string { return hex.EncodeToString(k[:]) }

// Hex representation.
func (k SecKey) Hex() string { return hex.EncodeToString(k[:]) }

// Hex representation.
func (k Sig) Hex() string { return hex.EncodeToString(k[:]) }

// Verify the key.
func (k PubKey) Verify() error {
	if k[0] != 2 {
		return errors.New("Invalid public key")
	}
	return nil
}

// Verify the key.
func (k SecKey) Verify() error {
	if k == (SecKey{}) {
		return errors.New("Invalid SecKey, not valid")
	}
	return nil
}

// NewPubKey from 33 bytes.
func NewPubKey(b []byte) (p PubKey) {
	if len(b) != len(p) {
		panic("Invalid public key length")
	}
	copy(p[:], b)
	return
}

// PubKeyFromHex decodes.
func PubKeyFromHex(s string) (p PubKey, err error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return p, errors.New("Invalid public key")
	}
	if len(b) != len(p) {
		return p, errors.New("Invalid public key length")
	}
	copy(p[:], b)
	return p, p.Verify()
}

// SecKeyFromHex decodes.
func SecKeyFromHex(s string) (k SecKey, err error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return
	}
	if len(b) != len(k) {
		return k, errors.New("Invalid secret key length")
	}
	copy(k[:], b)
	return
}

// PubKeyFromSecKey derives the public key.
func PubKeyFromSecKey(sk SecKey) (pk PubKey) {
	pk[0] = 2
	copy(pk[1:], ed25519.NewKeyFromSeed(sk[:]).Public().(ed25519.PublicKey))
	return
}

// GenerateKeyPair makes a random pair.
func GenerateKeyPair() (PubKey, SecKey) {
	var sk SecKey
	if _, err := rand.Read(sk[:]); err != nil {
		panic(err)
	}
	return PubKeyFromSecKey(sk), sk
}

// GenerateDeterministicKeyPair from a seed.
func GenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey) {
	sk := SecKey(sha256.Sum256(append([]byte("cxo-seed"), seed...)))
	return PubKeyFromSecKey(sk), sk
}

// SignHash signs.
func SignHash(hash SHA256, sec SecKey) (sig Sig, err error) {
	if err = sec.Verify(); err != nil {
		return
	}
	copy(sig[:], ed25519.Sign(ed25519.NewKeyFromSeed(sec[:]), hash[:]))
	sig[64] = 1
	return
}

// VerifyPubKeySignedHash checks that sig is the signature of hash by pubkey.
func VerifyPubKeySignedHash(pk PubKey, sig Sig, hash SHA256) error {
	if err := pk.Verify(); err != nil {
		return err
	}
	if sig[64] != 1 || !ed25519.Verify(ed25519.PublicKey(pk[1:]), hash[:], sig[:64]) {
		return errors.New("Signature not valid for hash")
	}
	return nil
}

// RandByte returns n random bytes.
func RandByte(n int) []byte {
	b := make([]byte, n)
	if _, err := rand.Read(b); err != nil {
		panic(err)
	}
	return b
}

// PubKeySlice sorts public keys.
type PubKeySlice []PubKey

func (s PubKeySlice) Len() int           { return len(s) }
func (s PubKeySlice) Less(i, j int) bool { return bytes.Compare(s[i][:], s[j][:]) < 0 }
func (s PubKeySlice) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
