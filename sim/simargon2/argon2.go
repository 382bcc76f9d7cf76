// Package simargon2 stands in for argon2: at its real cost, at the lowest cost with the
// requested cost parameters entering through the salt, so that results still depend on
// all inputs, or as an ideal keyed hash of all inputs.
package simargon2

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"

	"golang.org/x/crypto/argon2"
	"verif/sim"
)

// Full makes this run use the real cost parameters.
func SetFull(on bool) { sim.Active().Local.Set("argon2.full", on) }

// SetIdeal makes this run use the ideal hash.
func SetIdeal(on bool) { sim.Active().Local.Set("argon2.ideal", on) }

func ideal(kind byte, password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) ([]byte, bool) {
	w := sim.Active()
	if w == nil || time < 1 || threads < 1 {
		return nil, false
	}
	if b, _ := w.Local.Get("argon2.ideal").(bool); !b {
		return nil, false
	}
	sim.RaceReads(password)
	var out []byte
	for i := byte(0); uint32(len(out)) < keyLen; i++ {
		h := hmac.New(sha256.New, password)
		n := binary.BigEndian.AppendUint32([]byte{kind, i, threads}, time)
		n = binary.BigEndian.AppendUint32(n, memory)
		n = binary.BigEndian.AppendUint32(n, keyLen)
		n = binary.BigEndian.AppendUint32(n, uint32(len(password)))
		h.Write(append(n, salt...))
		out = h.Sum(out)
	}
	return out[:keyLen], true
}

func full() bool {
	w := sim.Active()
	if w == nil {
		return true
	}
	b, _ := w.Local.Get("argon2.full").(bool)
	return b
}

func salted(salt []byte, time, memory uint32) []byte {
	s := append([]byte(nil), salt...)
	s = binary.BigEndian.AppendUint32(s, time)
	return binary.BigEndian.AppendUint32(s, memory)
}

func IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	sim.RaceReads(salt)
	if out, ok := ideal(1, password, salt, time, memory, threads, keyLen); ok {
		return out
	}
	if full() || time < 1 || threads < 1 {
		return argon2.IDKey(password, salt, time, memory, threads, keyLen)
	}
	return argon2.IDKey(password, salted(salt, time, memory), 1, 8*uint32(threads), threads, keyLen)
}

func Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	sim.RaceReads(salt)
	if out, ok := ideal(2, password, salt, time, memory, threads, keyLen); ok {
		return out
	}
	if full() || time < 1 || threads < 1 {
		return argon2.Key(password, salt, time, memory, threads, keyLen)
	}
	return argon2.Key(password, salted(salt, time, memory), 1, 8*uint32(threads), threads, keyLen)
}
