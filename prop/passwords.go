package prop

import (
	"bytes"
	"encoding/base64"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simargon2"
	"verif/sim/simbcrypt"
	"verif/sim/simcrand"
)

func (e *Env) password(maxLen int, nul bool) []byte {
	var p []byte
	switch e.Weighted(5, 2, 2, 1, 1) {
	case 0:
		p = []byte(sim.Sprintf("secret-%d", e.Int(1000)))
	case 1:
		p = e.fill(e.Int(min(maxLen, 40)+1), 0)
	case 2:
		p = e.fill(Pick(e, 71, 72, 70, 55, 56, 64, 8, 1), 0)
	case 3:
		p = []byte{}
	case 4:
		p = e.fill(e.Int(maxLen+1), 0)
	}
	if len(p) > maxLen {
		p = p[:maxLen]
	}
	if !nul {
		for i := range p {
			if p[i] == 0 {
				p[i] = 1
			}
		}
	}
	return p
}

// alterPassword derives a different password of at most maxLen bytes.
func alterPassword(p []byte, a, b, maxLen int, nul bool) []byte {
	out := append([]byte(nil), p...)
	switch a % 7 {
	case 0: // one bit
		if len(out) > 0 {
			i := b % len(out)
			out[i] ^= 1 << (uint(b/97) % 8)
			if out[i] == 0 && !nul {
				out[i] = p[i] ^ 0x81
				if out[i] == 0 {
					out[i] = p[i] ^ 3
				}
			}
			return out
		}
	case 1: // last byte
		if len(out) > 0 {
			out[len(out)-1] ^= 0x40
			if out[len(out)-1] == 0 && !nul {
				out[len(out)-1] = 0x55
			}
			return out
		}
	case 2: // prefix
		if len(out) > 0 {
			return out[:b%len(out)]
		}
	case 3: // extension
		if len(out) < maxLen {
			return append(out, byte(b)|1)
		}
	case 4: // twice
		if len(out) > 0 && 2*len(out) <= maxLen {
			return append(out, out...)
		}
	case 5: // case
		for i := range out {
			if out[i] >= 'a' && out[i] <= 'z' {
				out[i] -= 32
				return out
			}
		}
	}
	return []byte(sim.Sprintf("other-%d", b))
}

type pwRec struct {
	level  int
	pw     []byte
	stored []byte // or the text form
	snap   []byte
	text   bool
}

const (
	pwHash = iota
	pwVerify
	pwWrong
	pwDamaged
	pwBadLevel
	pwGarbage
)

type pwOp struct {
	kind, pw, level, rec, other, a, b int
	text                              bool
	dmg                               damagePlan
	field                             int // 1, 2: an offset of the record is overwritten
}

func passwordScenario(e *Env) {
	nt := e.Range(1, 3)
	np := e.Range(1, 3)
	var pws [][]byte
	for i := 0; i < np; i++ {
		n := 200
		if e.Chance(5) {
			n = Pick(e, 3000, 3000, 70_000)
		}
		pws = append(pws, e.password(n, true))
	}
	phases := 1
	if e.Chance(25) {
		phases = 2 // with a restart in between
	}
	plan := make([][]pwOp, nt*phases)
	total := 0
	for t := range plan {
		for x := e.Range(1, 4+e.Size/12); x > 0; x-- {
			o := pwOp{kind: e.Weighted(4, 2, 3, 8, 1, 1), pw: e.Int(np), level: e.Range(1, 4), rec: e.Int(1 << 16), other: e.Int(1 << 16), a: e.Int(1 << 16), b: e.Int(1 << 16), text: e.Chance(40)}
			switch o.kind {
			case pwDamaged, pwGarbage:
				o.dmg = e.damage()
				if e.Chance(20) {
					o.field = e.Range(1, 2)
				}
			case pwBadLevel:
				o.level = Pick(e, 0, 5, -1, 32767, -32768, 257, 256, 258, 260, 6, -255, 127, 128, 255)
			}
			if x == 1 && total == 0 {
				o.kind = pwHash
			}
			plan[t] = append(plan[t], o)
			total++
		}
	}
	sparse, place := e.Chance(40), e.Int(16)
	full := e.Int(20000) == 19999
	slots := make([]*sim.Task, nt)
	rnd := newRndSource(e, nt, func() int {
		for i, s := range slots {
			if s == sim.Cur() {
				return i
			}
		}
		return 0
	})
	ideal := e.Chance(80)
	e.Note("tasks=%d ops=%d passwords=%d random-plan=%d sparse=%v full=%v", nt, total, np, len(rnd.plan), sparse, full)
	e.Nontrivial = total >= 2
	simcrand.SetSource(rnd.read)
	if sparse {
		simcrand.SetSparse(place)
	}
	if full {
		simargon2.SetFull(true)
	} else {
		simargon2.SetIdeal(ideal)
	}
	const P = "C25"
	seen := map[string]bool{}
	var recs []*pwRec
	verify := func(stored, pw []byte, text bool) (err error) {
		before, pb := bytes.Clone(stored), bytes.Clone(pw)
		v, panicked := Try(func() {
			if text {
				err = adapt.PassVerify64(pw, string(stored))
			} else {
				err = adapt.PassVerify(pw, stored)
			}
		})
		if panicked {
			e.Fail(P, "verify-panic", "Verify panicked on %d stored bytes (text form: %v): %s", len(stored), text, sim.Sprintf("%v", v))
			return simcrand.ErrRandom
		}
		e.Check(bytes.Equal(before, stored) && bytes.Equal(pb, pw), P, "input-changed", "Verify changed the stored hash or the password it was given")
		return err
	}
	hash := func(t int, o *pwOp) {
		pw := bytes.Clone(pws[o.pw])
		var out []byte
		var err error
		var v any
		var panicked, failed bool
		for try := 0; ; try++ {
			rnd.begin(t)
			out = nil
			v, panicked = Try(func() {
				if o.text {
					var s string
					s, err = adapt.PassHash64(pw, o.level)
					if s != "" {
						out = []byte(s)
					}
				} else {
					out, err = adapt.PassHash(pw, o.level)
				}
			})
			failed = rnd.end(t)
			if panicked || failed || err == nil || !rnd.late(try) {
				break
			}
		}
		if panicked {
			e.Fail(P, "hash-panic", "Hash at level %d panicked: %s", o.level, sim.Sprintf("%v", v))
			return
		}
		e.Check(bytes.Equal(pw, pws[o.pw]), P, "input-changed", "Hash changed the password it was given")
		if o.level < 1 || o.level > 4 {
			e.Check(err != nil && out == nil, P, "undefined-level", "Hash at the undefined level %d returned err=%v and %d bytes", o.level, err != nil, len(out))
			sim.Probe("undefined-level")
			return
		}
		if failed && err == nil {
			rec := out
			if o.text {
				rec, _ = base64.RawURLEncoding.DecodeString(string(out))
			}
			if rnd.used(rec, 16) {
				failed = false
				sim.Probe("random-failed-but-enough")
			}
		}
		if failed {
			sim.Probe("random-failed")
			e.Check(err != nil && out == nil, P, "random-failure-ignored", "the random source failed but Hash returned err=%v and %d bytes", err != nil, len(out))
			return
		}
		e.Check(err == nil && len(out) > 0, P, "hash-refused", "Hash at level %d failed (err=%v, %d bytes)", o.level, err != nil, len(out))
		e.Check(!seen[string(out)], P, "equal-hashes", "two calls of Hash returned equal hashes")
		seen[string(out)] = true
		r := &pwRec{level: o.level, pw: pws[o.pw], stored: out, snap: bytes.Clone(out), text: o.text}
		for i := range pw { // the buffer belongs to the caller again
			pw[i] ^= 0x5a
		}
		recs = append(recs, r)
		e.Check(verify(r.stored, r.pw, r.text) == nil, P, "right-password-refused", "Verify refused the right password at once (level %d, text form: %v)", r.level, r.text)
	}
	// binary is the record behind the stored form, nil if there is none.
	binary := func(b []byte, text bool) ([]byte, bool) {
		if !text {
			return b, true
		}
		d, err := base64.RawURLEncoding.DecodeString(string(b))
		return d, err == nil
	}
	setField := func(d []byte, field, a, b int) {
		if len(d) < 17 {
			return
		}
		sim.Fault("storage-offset-field")
		vals := []uint64{0, 1, 16, 17, 18, 32, 33, 34, 64, 65, 66, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, uint64(b)}
		v := vals[a%len(vals)]
		for k := 0; k < 8; k++ {
			d[1+(field-1)*8+k] = byte(v >> (8 * k))
		}
	}
	for {
		var g Tasks
		for t := range plan[:nt] {
			t := t
			g.Go("client", func() {
				slots[t] = sim.Cur()
				for i := range plan[t] {
					o := &plan[t][i]
					if o.kind == pwHash || o.kind == pwBadLevel || len(recs) == 0 {
						hash(t, o)
						continue
					}
					r := recs[o.rec%len(recs)]
					other := recs[o.other%len(recs)]
					wrong := alterPassword(pws[o.pw], o.a, o.b, 4000, true)
					if o.b%3 == 0 {
						wrong = bytes.Clone(pws[o.pw])
					}
					switch o.kind {
					case pwVerify:
						e.Check(verify(r.stored, r.pw, r.text) == nil && bytes.Equal(r.stored, r.snap), P, "right-password-refused", "Verify refused the right password later (level %d, text form: %v)", r.level, r.text)
					case pwWrong:
						if bytes.Equal(wrong, r.pw) {
							break
						}
						e.Check(verify(r.stored, wrong, r.text) != nil, P, "wrong-password-accepted", "Verify accepted a wrong password of %d bytes (right: %d bytes)", len(wrong), len(r.pw))
					case pwGarbage: // something that never was a record
						n := o.a % 80
						d := make([]byte, n)
						rg := sim.NewRNG(uint64(o.b) + 1)
						for i := range d {
							d[i] = byte(rg.Uint64() >> 24)
						}
						if n > 0 {
							d[0] = byte(o.b % 6)
						}
						if n >= 17 {
							for k := 1; k < 17; k++ {
								d[k] = 0
							}
							x := 17 + o.rec%(n-16)
							d[1] = byte(x)
							d[9] = byte(x + o.other%(n-x+1))
						}
						sim.Fault("storage-garbage")
						e.Check(verify(d, r.pw, false) != nil, P, "garbage-accepted", "Verify accepted a password against %d bytes that no Hash produced", n)
					case pwDamaged:
						if other.text != r.text && o.dmg.kind == dmgSwap {
							break
						}
						var disk []byte
						if o.field > 0 && !r.text {
							disk = bytes.Clone(r.snap)
							setField(disk, o.field, o.a, o.b)
						} else if o.field > 0 {
							d, _ := binary(r.snap, true)
							setField(d, o.field, o.a, o.b)
							disk = []byte(base64.RawURLEncoding.EncodeToString(d))
						} else {
							disk = o.dmg.apply(r.stored, other.stored)
						}
						d, ok := binary(disk, r.text)
						orig, _ := binary(r.snap, r.text)
						theirs, _ := binary(other.snap, other.text)
						if ok && bytes.Equal(d, orig) {
							sim.Probe("fault-without-effect")
							break
						}
						err := verify(disk, r.pw, r.text)
						e.Check(ok || err != nil, P, "damage-accepted", "VerifyBase64 accepted text that does not decode (%s)", dmgNames[o.dmg.kind])
						if ok && len(orig) > 17 {
							switch {
							case len(d) >= len(orig) && d[0] == orig[0] && bytes.Equal(d[17:len(orig)], orig[17:]):
								// only the lengths were damaged or something was appended
							case bytes.Equal(other.pw, r.pw) && len(d) >= len(theirs) && d[0] == theirs[0] && bytes.Equal(d[17:len(theirs)], theirs[17:]):
								// the tail is another hash of the same password
							default:
								e.Check(err != nil, P, "damage-accepted", "Verify still accepted after its stored hash was damaged (%s, %d of %d bytes)", dmgNames[o.dmg.kind], len(d), len(orig))
							}
						}
						if !bytes.Equal(wrong, r.pw) && !bytes.Equal(wrong, other.pw) {
							e.Check(verify(disk, wrong, r.text) != nil, P, "wrong-password-accepted", "Verify accepted a wrong password against a damaged hash (%s)", dmgNames[o.dmg.kind])
						}
					}
				}
			})
		}
		g.Join()
		plan = plan[nt:]
		if len(plan) == 0 || !restart(rnd) {
			break
		}
		for _, r := range recs {
			e.Check(verify(r.stored, r.pw, r.text) == nil, P, "right-password-refused", "Verify refused the right password after a restart (level %d, text form: %v)", r.level, r.text)
		}
	}
	for _, r := range recs {
		e.Check(bytes.Equal(r.stored, r.snap), P, "stored-changed", "a returned hash changed afterwards")
		e.Check(verify(r.stored, r.pw, r.text) == nil, P, "right-password-refused", "Verify refused the right password at the end (level %d, text form: %v)", r.level, r.text)
	}
}

func bcryptScenario(e *Env) {
	const P = "C26"
	const maxLen = 72
	nt := e.Range(1, 2)
	np := e.Range(1, 3)
	var pws [][]byte
	nul := e.Chance(15) // passwords with NUL bytes: only round trips are promised
	for i := 0; i < np; i++ {
		pws = append(pws, e.password(maxLen, nul))
	}
	phases := 1
	if e.Chance(25) {
		phases = 2 // with a restart in between
	}
	plan := make([][]pwOp, nt*phases)
	total := 0
	for t := range plan {
		for x := e.Range(1, 3+e.Size/16); x > 0; x-- {
			o := pwOp{kind: e.Weighted(3, 1, 4, 6, 1), pw: e.Int(np), rec: e.Int(1 << 16), other: e.Int(1 << 16), a: e.Int(1 << 16), b: e.Int(1 << 16)}
			if o.kind == pwDamaged {
				o.dmg = e.damage()
			}
			if o.kind == pwBadLevel { // too long
				o.level = Pick(e, 73, 74, 100, 144, 256+10, 5000)
			}
			if x == 1 && total == 0 {
				o.kind = pwHash
			}
			plan[t] = append(plan[t], o)
			total++
		}
	}
	sparse, place := e.Chance(40), e.Int(16)
	full := e.Int(3000) == 2999
	slots := make([]*sim.Task, nt)
	rnd := newRndSource(e, nt, func() int {
		for i, s := range slots {
			if s == sim.Cur() {
				return i
			}
		}
		return 0
	})
	e.Note("tasks=%d ops=%d passwords=%d random-plan=%d sparse=%v full=%v", nt, total, np, len(rnd.plan), sparse, full)
	e.Nontrivial = total >= 2
	simcrand.SetSource(rnd.read)
	if sparse {
		simcrand.SetSparse(place)
	}
	if full {
		simbcrypt.SetFull(true)
	}
	seen := map[string]bool{}
	var recs []*pwRec
	decrypt := func(stored, pw []byte) bool {
		var ok bool
		var err error
		before, pb := bytes.Clone(stored), bytes.Clone(pw)
		v, panicked := Try(func() { ok, err = adapt.BcryptDecrypt(stored, pw) })
		if panicked {
			e.Fail(P, "decrypt-panic", "Decrypt panicked on %d stored bytes: %s", len(stored), sim.Sprintf("%v", v))
			return false
		}
		e.Check(ok == (err == nil), P, "result-and-error", "Decrypt returned %v with an error: %v", ok, err != nil)
		e.Check(bytes.Equal(before, stored) && bytes.Equal(pb, pw), P, "input-changed", "Decrypt changed the stored hash or the password it was given")
		return ok
	}
	encrypt := func(t int, pw0 []byte) {
		pw := bytes.Clone(pw0)
		var out []byte
		var err error
		rnd.begin(t)
		v, panicked := Try(func() { out, err = adapt.BcryptEncrypt(pw) })
		failed := rnd.end(t)
		if panicked {
			e.Fail(P, "encrypt-panic", "Encrypt of %d bytes panicked: %s", len(pw), sim.Sprintf("%v", v))
			return
		}
		e.Check(bytes.Equal(pw, pw0), P, "input-changed", "Encrypt changed the password it was given")
		if len(pw) > maxLen {
			sim.Probe("too-long")
			e.Check(err != nil && out == nil, P, "too-long-accepted", "Encrypt of %d bytes returned err=%v and %d bytes", len(pw), err != nil, len(out))
			return
		}
		if failed {
			sim.Probe("random-failed")
			e.Check(err != nil && out == nil, P, "random-failure-ignored", "the random source failed but Encrypt returned err=%v and %d bytes", err != nil, len(out))
			return
		}
		e.Check(err == nil && len(out) > 0, P, "encrypt-refused", "Encrypt of %d bytes failed (err=%v, %d bytes)", len(pw), err != nil, len(out))
		e.Check(!seen[string(out)], P, "equal-hashes", "two calls of Encrypt returned equal hashes")
		seen[string(out)] = true
		r := &pwRec{pw: pw0, stored: out, snap: bytes.Clone(out)}
		for i := range pw {
			pw[i] = 'x'
		}
		recs = append(recs, r)
		e.Check(decrypt(r.stored, r.pw), P, "right-password-refused", "Decrypt refused the right password of %d bytes", len(r.pw))
	}
	for {
		var g Tasks
		for t := range plan[:nt] {
			t := t
			g.Go("client", func() {
				slots[t] = sim.Cur()
				for i := range plan[t] {
					o := &plan[t][i]
					if o.kind == pwBadLevel {
						long := make([]byte, o.level)
						for i := range long {
							long[i] = byte('a' + i%26)
						}
						encrypt(t, long)
						continue
					}
					if o.kind == pwHash || len(recs) == 0 {
						encrypt(t, pws[o.pw])
						continue
					}
					r := recs[o.rec%len(recs)]
					other := recs[o.other%len(recs)]
					wrong := alterPassword(pws[o.pw], o.a, o.b, maxLen, false)
					if o.b%3 == 0 {
						wrong = bytes.Clone(pws[o.pw])
					}
					switch o.kind {
					case pwVerify:
						e.Check(decrypt(r.stored, r.pw) && bytes.Equal(r.stored, r.snap), P, "right-password-refused", "Decrypt refused the right password of %d bytes later", len(r.pw))
					case pwWrong:
						if nul || bytes.Equal(wrong, r.pw) {
							break
						}
						e.Check(!decrypt(r.stored, wrong), P, "wrong-password-accepted", "Decrypt accepted a wrong password of %d bytes (right: %d bytes)", len(wrong), len(r.pw))
					case pwDamaged:
						disk := o.dmg.apply(r.stored, other.stored)
						if bytes.Equal(disk, r.snap) {
							sim.Probe("fault-without-effect")
							break
						}
						if len(disk) < 59 {
							e.Check(!decrypt(disk, r.pw), P, "damage-accepted", "Decrypt accepted a hash cut to %d bytes", len(disk))
						} else {
							decrypt(disk, r.pw)
						}
						if !nul && !bytes.Equal(wrong, r.pw) && !bytes.Equal(wrong, other.pw) {
							e.Check(!decrypt(disk, wrong), P, "wrong-password-accepted", "Decrypt accepted a wrong password against a damaged hash (%s)", dmgNames[o.dmg.kind])
						}
					}
				}
			})
		}
		g.Join()
		plan = plan[nt:]
		if len(plan) == 0 || !restart(rnd) {
			break
		}
		for _, r := range recs {
			e.Check(decrypt(r.stored, r.pw), P, "right-password-refused", "Decrypt refused the right password after a restart (%d bytes)", len(r.pw))
		}
	}
	for _, r := range recs {
		e.Check(bytes.Equal(r.stored, r.snap), P, "stored-changed", "a returned hash changed afterwards")
		e.Check(decrypt(r.stored, r.pw), P, "right-password-refused", "Decrypt refused the right password at the end (%d bytes)", len(r.pw))
	}
}

func init() {
	register(&Scenario{Name: "passhash", Props: []string{"C25"}, Weight: 60, Run: passwordScenario,
		Real: "cryptox/passhashx, argon2 in a fifth of the runs (lowest cost, the requested cost enters through the salt; rarely full cost)", Stub: "the random source, the store, the goroutine scheduler, argon2 in four fifths of the runs (an ideal hash)"})
	meta(&Meta{ID: "C25", Rule: "a run is one generated sequence of hash and verify calls and storage and random-source faults by up to three clients; non-trivial when there are at least two operations",
		Runs: map[string]int{"quick": 200000, "thorough": 5000000}})
	register(&Scenario{Name: "bcrypt", Props: []string{"C26"}, Weight: 60, Run: bcryptScenario,
		Real: "cryptox/bcryptx, bcrypt (lowest cost)", Stub: "the random source, the store, the goroutine scheduler, the cost of bcrypt"})
	meta(&Meta{ID: "C26", Rule: "a run is one generated sequence of encrypt and decrypt calls and storage and random-source faults by up to two clients; non-trivial when there are at least two operations",
		Runs: map[string]int{"quick": 20000, "thorough": 500000}})
}
