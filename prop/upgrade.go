package prop

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"

	"golang.org/x/crypto/bcrypt"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simargon2"
	"verif/sim/simbcrypt"
)

// What the release that the checks were written for stored, made without its code:
// an upgrade replaces the program, the stored bytes stay.

func oldEncrypt(mode int, data, key, nonce []byte) []byte {
	k := sha256.Sum256(key)
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	switch mode {
	case adapt.GCM:
		g, err := cipher.NewGCM(b)
		if err != nil {
			panic(err)
		}
		return g.Seal(bytes.Clone(nonce[:12]), nonce[:12], data, nil)
	case adapt.CBC:
		cipher.NewCBCEncrypter(b, nonce).CryptBlocks(out, data)
	default:
		cipher.NewCTR(b, nonce).XORKeyStream(out, data)
	}
	return append(bytes.Clone(nonce), out...)
}

var oldCosts = [...]struct {
	time, memory uint32
	threads      uint8
}{{20, 64 * 1024, 4}, {32, 4 * 1024, 1}, {4, 37 * 1024, 1}, {8, 15 * 1024, 1}}

func oldHash(pw, salt []byte, level int) []byte {
	c := oldCosts[level-1]
	h := simargon2.IDKey(pw, salt, c.time, c.memory, c.threads, 32)
	out := []byte{byte(level - 1)}
	out = binary.LittleEndian.AppendUint64(out, 17+16)
	out = binary.LittleEndian.AppendUint64(out, 17+16+32)
	return append(append(out, salt...), h...)
}

// upgradeScenario reads records of the old release, beside records of the new one.
func upgradeScenario(prop string) func(e *Env) {
	return func(e *Env) {
		e.Nontrivial = true
		n := e.Range(1, 4)
		full := prop == "C25" && e.Int(100) == 0
		ideal := e.Chance(70)
		if prop == "C25" {
			if full {
				simargon2.SetFull(true)
				n = 1
			} else {
				simargon2.SetIdeal(ideal)
			}
		}
		e.Note("%s records of an earlier release=%d full=%v ideal=%v", prop, n, full, ideal)
		type rec struct {
			stored, data, key []byte
			mode              int
			text              bool
		}
		var recs []*rec
		for i := 0; i < n; i++ {
			r := &rec{}
			switch prop {
			case "C23", "C24":
				r.mode = adapt.GCM
				if prop == "C24" {
					r.mode = Pick(e, adapt.CBC, adapt.CTR)
				}
				r.data, r.key = e.fill(e.dataLen(), e.Int(3)), e.key()
				if r.mode == adapt.CBC {
					r.data = r.data[:len(r.data)/16*16]
				}
				r.stored = oldEncrypt(r.mode, r.data, r.key, e.fill(16, 0))
			case "C25":
				r.mode, r.text = e.Range(1, 4), e.Chance(40)
				r.key = e.password(200, true)
				r.stored = oldHash(r.key, e.fill(16, 0), r.mode)
				if r.text {
					r.stored = []byte(base64.RawURLEncoding.EncodeToString(r.stored))
				}
			case "C26":
				r.key = e.password(72, false)
				h, err := simbcrypt.GenerateFromPassword(r.key, bcrypt.DefaultCost)
				if err != nil {
					panic(err)
				}
				r.stored = h
			}
			recs = append(recs, r)
		}
		read := func(r *rec, key []byte) (data []byte, ok bool) {
			var err error
			v, panicked := Try(func() {
				switch {
				case prop == "C23" || prop == "C24":
					data, err = adapt.CipherOf(r.mode).Dec(bytes.Clone(r.stored), key)
					ok = err == nil
				case prop == "C26":
					ok, err = adapt.BcryptDecrypt(bytes.Clone(r.stored), key)
				case r.text:
					ok = adapt.PassVerify64(key, string(r.stored)) == nil
				default:
					ok = adapt.PassVerify(key, bytes.Clone(r.stored)) == nil
				}
			})
			if panicked {
				e.Fail(prop, "upgrade-panic", "reading %d bytes an earlier release stored panicked: %s", len(r.stored), sim.Sprintf("%v", v))
			}
			return data, ok
		}
		for phase := 0; phase < 2; phase++ {
			var g Tasks
			for t := 0; t < min(n, 2); t++ {
				g.Go("reader", func() {
					for _, r := range recs[t:] {
						data, ok := read(r, bytes.Clone(r.key))
						e.Check(ok && bytes.Equal(data, r.data), prop, "old-record-unreadable", "%d bytes stored by an earlier release (mode or level %d, key or password of %d bytes) are refused or come out wrong", len(r.stored), r.mode, len(r.key))
					}
				})
			}
			g.Join()
			if full || !restart(nil) {
				break
			}
		}
		sim.Probe("old-records")
	}
}

func init() {
	for _, p := range []string{"C23", "C24", "C25", "C26"} {
		register(&Scenario{Name: "upgrade-" + p, Props: []string{p}, Weight: 1, Run: upgradeScenario(p),
			Real: "cryptox", Stub: "the earlier release (a reference encoder)"})
	}
}
