package adapt

import (
	"errors"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
)

// Cipher is one of the AES modes.
type Cipher struct {
	Name     string
	Enc, Dec func(data, key []byte) ([]byte, error)
}

var sink byte

func touch(b []byte) {
	var x byte
	for _, c := range b {
		x ^= c
	}
	if x == 0 && len(b) == 1<<40 {
		sink = x
	}
}

func touched(f func(a, b []byte) ([]byte, error)) func(a, b []byte) ([]byte, error) {
	return func(a, b []byte) ([]byte, error) {
		r, err := f(a, b)
		touch(a)
		touch(b)
		for i := range r { // the result belongs to the caller: writing to it must be safe
			r[i] ^= 0
		}
		return r, err
	}
}

const (
	GCM = iota
	CBC
	CTR
)

func CipherOf(mode int) Cipher {
	switch mode {
	case GCM:
		return Cipher{"GCM", touched(aesx.EncryptGCM), touched(aesx.DecryptGCM)}
	case CBC:
		return Cipher{"CBC", touched(aesx.EncryptCBC), touched(aesx.DecryptCBC)}
	}
	return Cipher{"CTR", touched(aesx.EncryptCTR), touched(aesx.DecryptCTR)}
}

// Passhash.
func PassHash(pw []byte, level int) ([]byte, error) {
	h, err := passhashx.Hash(pw, passhashx.SecurityLevel(level))
	touch(h)
	return h, err
}
func PassHash64(pw []byte, level int) (string, error) {
	return passhashx.HashBase64(pw, passhashx.SecurityLevel(level))
}
func PassVerify(pw, h []byte) error              { return passhashx.Verify(pw, h) }
func PassVerify64(pw []byte, h string) error     { return passhashx.VerifyBase64(pw, h) }
func IsBadLevel(err error) bool                  { return errors.Is(err, passhashx.ErrInvalidSecurityLevel) }
func BcryptEncrypt(pw []byte) ([]byte, error)    { return bcryptx.Encrypt(pw) }
func BcryptDecrypt(enc, pw []byte) (bool, error) { return bcryptx.Decrypt(enc, pw) }
func IsTooLong(err error) bool                   { return errors.Is(err, bcryptx.ErrPasswordTooLong) }
