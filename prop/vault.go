package prop

import (
	"bytes"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simcrand"
)

// A faulty random source: every read follows the next decision of the plan.
const (
	rndOK = iota
	rndError
	rndShortError // some bytes, then an error
	rndShort      // some bytes, no error
	rndNothing    // no bytes, no error
)

type rndSource struct {
	plan   []int
	at     int
	failed []bool // per task slot: an error was delivered
	slot   func() int
	fails  int
	got    []byte // all bytes delivered so far
}

func newRndSource(e *Env, tasks int, slot func() int) *rndSource {
	r := &rndSource{failed: make([]bool, tasks), slot: slot}
	simcrand.SetObserver(func(b []byte) { r.got = append(r.got, b...) })
	if e.Chance(60) {
		mixed := e.Chance(50)
		only := e.Range(1, 4)
		for n := e.Range(1, 12); n > 0; n-- {
			k := rndOK
			if e.Chance(40) {
				k = only
				if mixed {
					k = e.Range(1, 4)
				}
			}
			r.plan = append(r.plan, k)
		}
	}
	return r
}

// used says whether n bytes in a row of b are random bytes that were delivered: a
// call may have kept enough of them from before the source failed.
func (r *rndSource) used(b []byte, n int) bool {
	for i := 0; i+n <= len(b); i++ {
		if bytes.Contains(r.got, b[i:i+n]) {
			return true
		}
	}
	return false
}

// late says whether a call that failed although the source did not fail meanwhile may
// be tried again: the source failed before, and the error may have been kept.
func (r *rndSource) late(try int) bool { return r.fails > 0 && try < 3 }

func (r *rndSource) read(n int) (int, error) {
	k := rndOK
	if r.at < len(r.plan) {
		k = r.plan[r.at]
		r.at++
	}
	switch k {
	case rndError:
		sim.Fault("random-error")
		r.failed[r.slot()] = true
		r.fails++
		return 0, simcrand.ErrRandom
	case rndShortError:
		sim.Fault("random-short-error")
		r.failed[r.slot()] = true
		r.fails++
		return n / 2, simcrand.ErrRandom
	case rndShort:
		sim.Fault("random-short")
		if n > 1 {
			return n / 2, nil
		}
		return n, nil
	case rndNothing:
		sim.Fault("random-nothing")
		return 0, nil
	}
	return n, nil
}

// begin and end bracket one call of the task in slot t.
func (r *rndSource) begin(t int)    { r.failed[t] = false }
func (r *rndSource) end(t int) bool { return r.failed[t] }

// restart crashes the process between two calls: package state starts anew and only
// what was stored and the random source live on.
func restart(rnd *rndSource) bool {
	if sim.NumTasks() != 1 {
		return false // something still runs in the background
	}
	sim.Fault("restart")
	sim.Log("restart")
	simcrand.SetSource(func(n int) (int, error) { return n, nil })
	sim.ResetAll()
	if rnd != nil {
		simcrand.SetSource(rnd.read)
	}
	return true
}

// Storage faults.
const (
	dmgNone = iota
	dmgFlip
	dmgZero
	dmgCut
	dmgEmpty
	dmgNil
	dmgExtend
	dmgDropFront
	dmgSwap
	dmgTorn    // a crash while the record was overwritten by another one
	dmgSectors // two 16-byte sectors exchanged
	dmgRepeat  // a sector written over the next one
	dmgByte    // a byte replaced
	dmgHead    // only the first few bytes survive
	dmgTail    // last few bytes lost
	dmgKinds
)

var dmgNames = [...]string{"none", "bit-flip", "zeroed-range", "cut-short", "emptied", "lost", "extended", "front-lost", "swapped", "torn-write", "sectors-exchanged", "sector-misplaced", "byte-replaced", "head-only", "tail-lost"}

type damagePlan struct {
	kind    int
	a, b, c int
}

func (e *Env) damage() damagePlan {
	d := damagePlan{kind: e.Int(dmgKinds), a: e.Int(1 << 20), b: e.Int(1 << 20), c: e.Int(1 << 20)}
	if e.Chance(25) { // near the ends
		d.a %= 40
	}
	return d
}

// apply returns what is on the disk after the fault; other is some other record.
func (d damagePlan) apply(s, other []byte) []byte {
	out := append([]byte(nil), s...)
	n := len(out)
	at := func(x, n int) int {
		if n <= 0 {
			return 0
		}
		return x % n
	}
	if d.kind != dmgNone {
		sim.Fault("storage-" + dmgNames[d.kind])
	}
	switch d.kind {
	case dmgFlip:
		if n > 0 {
			for k := 0; k <= d.c%3; k++ {
				out[at(d.a+k*d.b, n)] ^= 1 << (uint(d.b+k) % 8)
			}
		}
	case dmgByte:
		if n > 0 {
			out[at(d.a, n)] = byte(d.b)
		}
	case dmgZero:
		i := at(d.a, n)
		for j := i; j < n && j < i+1+d.b%32; j++ {
			out[j] = 0
		}
	case dmgCut:
		out = out[:at(d.a, n+1)]
	case dmgHead:
		out = out[:at(d.a, min(n, 33)+1)]
	case dmgTail:
		out = out[:n-at(d.a, min(n, 17)+1)]
	case dmgEmpty:
		out = out[:0]
	case dmgNil:
		return nil
	case dmgExtend:
		for k := 0; k <= d.a%33; k++ {
			b := byte(d.b >> (k % 8))
			if d.c%3 == 0 {
				b = 0
			}
			out = append(out, b)
		}
	case dmgDropFront:
		out = out[at(d.a, n+1):]
	case dmgSwap:
		out = append(out[:0], other...)
	case dmgTorn:
		k := at(d.a, n+1)
		if k > len(other) {
			k = len(other)
		}
		copy(out, other[:k])
	case dmgSectors:
		if k := n / 16; k >= 2 {
			i, j := at(d.a, k), at(d.b, k)
			var t [16]byte
			copy(t[:], out[i*16:])
			copy(out[i*16:i*16+16], out[j*16:])
			copy(out[j*16:], t[:])
		}
	case dmgRepeat:
		if k := n / 16; k >= 2 {
			i, j := at(d.a, k), at(d.b, k)
			copy(out[j*16:j*16+16], out[i*16:i*16+16])
		}
	}
	return out
}

func (e *Env) dataLen() int {
	switch e.Weighted(4, 4, 3, 2, 2, 1) {
	case 0:
		return e.Int(17)
	case 1:
		return 16 * e.Range(0, 8)
	case 2:
		return e.Int(101)
	case 3:
		return Pick(e, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257)
	case 4:
		return 16 * e.Range(1, 64)
	}
	if e.Int(400) == 0 {
		return Pick(e, 1<<20, 1<<20+16, 1<<20-1, 200_000)
	}
	return Pick(e, 4096, 1024, 4095, 4097, 1000, 65536, 16384+16)
}

func (e *Env) fill(n, style int) []byte {
	b := make([]byte, n)
	r := sim.NewRNG(uint64(e.Int(1<<20)) + 7)
	for i := range b {
		switch style {
		case 0:
			b[i] = byte(r.Uint64() >> 30)
		case 1:
			b[i] = byte(i)
		}
	}
	return b
}

func (e *Env) key() []byte {
	switch e.Weighted(4, 2, 1, 1, 1) {
	case 1:
		return e.fill(Pick(e, 16, 24, 32), 0)
	case 2:
		return nil
	case 3:
		return []byte{byte(e.Int(3))}
	case 4:
		return e.fill(e.Range(33, 200), 0)
	}
	return []byte(sim.Sprintf("key-%d", e.Int(4)))
}

// alterKey derives another key, as close as can be.
func alterKey(k []byte, a, b int) []byte {
	out := append([]byte(nil), k...)
	switch a % 5 {
	case 0:
		if len(out) > 0 {
			out[b%len(out)] ^= 1 << (uint(b) % 8)
			return out
		}
	case 1:
		if len(out) > 0 {
			return out[:len(out)-1]
		}
	case 2:
		return append(out, 0)
	case 3:
		return append([]byte{0}, out...)
	}
	return append(out, byte(b))
}

type vaultRec struct {
	mode      int
	data, key []byte
	stored    []byte // as returned, never copied
	snap      []byte // what it looked like when it was returned
}

type vaultOp struct {
	kind, mode, data, key int
	rec, other            int
	dmg                   damagePlan
	a, b                  int
}

const (
	vEncrypt = iota
	vDecrypt
	vForeign
	vDamaged
)

// manyRecords: a long-lived client encrypts very many small records, so that nonces
// which are counted, cached or drawn from too few bits come round again.
func manyRecords(e *Env, prop string, modes []int) {
	n := e.Range(200, 1500)
	if e.Int(100) == 0 {
		n = e.Range(60000, 70000)
	}
	nt := e.Range(1, 3)
	mode := modes[e.Int(len(modes))]
	c := adapt.CipherOf(mode)
	size, keys := 16*e.Int(2), e.Range(1, 2)
	sparse, place := n <= 1500 && e.Chance(30), e.Int(16)
	e.Note("%s many records=%d tasks=%d mode=%s sparse=%v", prop, n, nt, c.Name, sparse)
	e.Nontrivial = true
	if sparse {
		simcrand.SetSparse(place)
	}
	at := 16
	if mode == adapt.GCM {
		at = 12
	}
	sim.LongRun(4 * n)
	seen := make(map[string]bool, n)
	// nonces must not start over when the client does
	again, done := e.Chance(40), 0
	if again {
		n /= 2
	}
	var g Tasks
again:
	for t := 0; t < nt; t++ {
		g.Go("client", func() {
			data := make([]byte, size)
			for i := 0; i < n/nt; i++ {
				key := []byte{'k', byte(i % keys)}
				sim.Did()
				out, err := c.Enc(data, key)
				if err != nil || len(out) < at {
					e.Fail(prop, "encrypt-refused", "Encrypt%s of %d bytes returned %d bytes and an error: %v", c.Name, size, len(out), err != nil)
					return
				}
				iv := string(out[:at])
				e.Check(!seen[iv], prop, "nonce-reuse", "two of %d Encrypt%s calls used the same nonce", len(seen)+1, c.Name)
				seen[iv] = true
				if i%64 == 0 {
					back, err := c.Dec(out, key)
					e.Check(err == nil && bytes.Equal(back, data), prop, "round-trip", "Decrypt%s of record %d of many failed or gave other data", c.Name, i)
				}
			}
		})
	}
	g.Join()
	if done++; again && done == 1 && restart(nil) {
		goto again
	}
	sim.Probe("many-records")
}

// vaultScenario: clients encrypt records, keep them in a store with faults, and read
// them back.
func vaultScenario(prop string) func(e *Env) {
	return func(e *Env) {
		modes := []int{adapt.GCM}
		if prop == "C24" {
			modes = []int{adapt.CBC, adapt.CTR}
			if e.Chance(30) {
				modes = modes[:1]
			} else if e.Chance(30) {
				modes = modes[1:]
			}
		}
		if e.Int(400) == 0 {
			manyRecords(e, prop, modes)
			return
		}
		nt := e.Range(1, 3)
		same := e.Chance(50) // one key for all
		nd, nk := e.Range(1, 4), 1
		if !same {
			nk = e.Range(2, 3)
		}
		var datas, keys, dcopy, kcopy [][]byte
		style := e.Int(3)
		for i := 0; i < nd; i++ {
			b := e.fill(e.dataLen(), style)
			datas, dcopy = append(datas, b), append(dcopy, bytes.Clone(b))
		}
		for i := 0; i < nk; i++ {
			b := e.key()
			keys, kcopy = append(keys, b), append(kcopy, bytes.Clone(b))
		}
		phases := 1
		if e.Chance(25) {
			phases = e.Range(2, 3) // with a restart in between
		}
		plan := make([][]vaultOp, nt*phases)
		total := 0
		for t := range plan {
			for x := e.Range(1, 4+e.Size/12); x > 0; x-- {
				o := vaultOp{kind: e.Weighted(5, 2, 2, 6), mode: modes[e.Int(len(modes))], data: e.Int(nd), key: e.Int(nk), rec: e.Int(1 << 16), other: e.Int(1 << 16), a: e.Int(1 << 16), b: e.Int(1 << 16)}
				if x == 1 && total == 0 {
					o.kind = vEncrypt
				}
				if o.kind == vDamaged {
					o.dmg = e.damage()
				}
				plan[t] = append(plan[t], o)
				total++
			}
		}
		// the random source may deliver blocks that differ in one place only
		sparse, place := e.Chance(40), e.Int(16)
		cur := func() int { return 0 }
		slots := make([]*sim.Task, nt)
		cur = func() int {
			for i, s := range slots {
				if s == sim.Cur() {
					return i
				}
			}
			return 0
		}
		rnd := newRndSource(e, nt, cur)
		e.Note("%s tasks=%d ops=%d data=%d keys=%d random-plan=%d sparse=%v", prop, nt, total, nd, nk, len(rnd.plan), sparse)
		e.Nontrivial = total >= 2
		simcrand.SetSource(rnd.read)
		if sparse {
			simcrand.SetSparse(place)
		}
		var recs []*vaultRec
		ivs := map[string]bool{}
		whole := map[string]bool{}
		decrypt := func(mode int, stored, key []byte) (out []byte, err error) {
			c := adapt.CipherOf(mode)
			before, kb := bytes.Clone(stored), bytes.Clone(key)
			v, panicked := Try(func() { out, err = c.Dec(stored, key) })
			if panicked {
				e.Fail(prop, "decrypt-panic", "Decrypt%s panicked on %d stored bytes: %s", c.Name, len(stored), sim.Sprintf("%v", v))
				return nil, simcrand.ErrRandom
			}
			e.Check(bytes.Equal(before, stored) && bytes.Equal(kb, key), prop, "input-changed", "Decrypt%s changed the stored bytes or the key it was given", c.Name)
			return out, err
		}
		roundtrip := func(r *vaultRec, when string) {
			c := adapt.CipherOf(r.mode)
			e.Check(bytes.Equal(r.stored, r.snap), prop, "stored-changed", "the bytes Encrypt%s returned changed afterwards (%s)", c.Name, when)
			out, err := decrypt(r.mode, r.stored, r.key)
			e.Check(err == nil && bytes.Equal(out, r.data), prop, "round-trip", "Decrypt%s of an undamaged record of %d bytes (%s): err=%v, right data=%v", c.Name, len(r.data), when, err != nil, bytes.Equal(out, r.data))
			for i := range out { // the result belongs to the caller
				out[i] ^= 0xa5
			}
			e.Check(bytes.Equal(r.stored, r.snap), prop, "aliased-result", "writing to the result of Decrypt%s changed the stored record", c.Name)
		}
		encrypt := func(t int, o *vaultOp) {
			c := adapt.CipherOf(o.mode)
			data := bytes.Clone(datas[o.data])
			key := bytes.Clone(keys[o.key])
			var out []byte
			var err error
			var v any
			var panicked, failed bool
			for try := 0; ; try++ {
				rnd.begin(t)
				v, panicked = Try(func() { out, err = c.Enc(data, key) })
				failed = rnd.end(t)
				if panicked || failed || err == nil || !rnd.late(try) {
					break
				}
			}
			if panicked {
				e.Fail(prop, "encrypt-panic", "Encrypt%s panicked on %d bytes: %s", c.Name, len(data), sim.Sprintf("%v", v))
				return
			}
			e.Check(bytes.Equal(data, dcopy[o.data]) && bytes.Equal(key, kcopy[o.key]), prop, "input-changed", "Encrypt%s changed the data or the key it was given", c.Name)
			if failed && err == nil && rnd.used(out[:min(len(out), 16)], 12) {
				failed = false
				sim.Probe("random-failed-but-enough")
			}
			if failed {
				sim.Probe("random-failed")
				e.Check(err != nil && out == nil, prop, "random-failure-ignored", "the random source failed but Encrypt%s returned err=%v and %d bytes", c.Name, err != nil, len(out))
				return
			}
			if err != nil {
				e.Check(out == nil, prop, "output-with-error", "Encrypt%s returned an error and %d bytes", c.Name, len(out))
				e.Check(o.mode == adapt.CBC && len(data)%16 != 0, prop, "encrypt-refused", "Encrypt%s refused %d bytes: %s", c.Name, len(data), err.Error())
				sim.Probe("refused-length")
				return
			}
			n := 16
			if o.mode == adapt.GCM {
				n = 12
			}
			e.Check(len(out) >= n, prop, "short-output", "Encrypt%s returned %d bytes", c.Name, len(out))
			iv := c.Name + string(out[:n])
			e.Check(!ivs[iv], prop, "nonce-reuse", "two Encrypt%s calls used the same nonce", c.Name)
			ivs[iv] = true
			all := c.Name + string(out)
			e.Check(!whole[all], prop, "equal-output", "two Encrypt%s calls returned equal bytes", c.Name)
			whole[all] = true
			body, plain := out[n:], dcopy[o.data]
			for i := 0; i+8 <= len(plain) && i+8 <= len(body); i += 8 {
				e.Check(!bytes.Equal(body[i:i+8], plain[i:i+8]), prop, "clear-text", "bytes %d to %d of %d stand in the clear in what Encrypt%s returned", i, i+7, len(plain), c.Name)
			}
			if k := len(plain) - 8; k >= 0 && len(body) >= len(plain) {
				e.Check(!bytes.Equal(body[k:k+8], plain[k:]), prop, "clear-text", "the last 8 of %d bytes stand in the clear in what Encrypt%s returned", len(plain), c.Name)
			}
			r := &vaultRec{mode: o.mode, data: dcopy[o.data], key: kcopy[o.key], stored: out, snap: bytes.Clone(out)}
			for i := range data { // the buffers belong to the caller again
				data[i] ^= 0x5a
			}
			for i := range key {
				key[i] = 0
			}
			recs = append(recs, r)
			roundtrip(r, "at once")
		}
		for {
			var g Tasks
			for t := range plan[:nt] {
				t := t
				g.Go("client", func() {
					slots[t] = sim.Cur()
					for i := range plan[t] {
						o := &plan[t][i]
						if o.kind == vEncrypt || len(recs) == 0 {
							encrypt(t, o)
							continue
						}
						r := recs[o.rec%len(recs)]
						c := adapt.CipherOf(r.mode)
						switch o.kind {
						case vDecrypt:
							roundtrip(r, "later")
						case vForeign:
							key := alterKey(r.key, o.a, o.b)
							sim.Fault("foreign-key")
							out, err := decrypt(r.mode, r.stored, key)
							if r.mode == adapt.GCM {
								e.Check(err != nil && out == nil, prop, "foreign-key-accepted", "DecryptGCM under another key returned err=%v and %d bytes", err != nil, len(out))
							} else if len(r.data) >= 16 {
								e.Check(err != nil || !bytes.Equal(out, r.data), prop, "foreign-key-accepted", "Decrypt%s under another key returned the original data", c.Name)
							}
						case vDamaged:
							other := recs[o.other%len(recs)]
							disk := o.dmg.apply(r.stored, other.stored)
							if bytes.Equal(disk, r.snap) {
								sim.Probe("fault-without-effect")
								break
							}
							out, err := decrypt(r.mode, disk, r.key)
							if r.mode == adapt.GCM {
								if bytes.Equal(disk, other.snap) && other.mode == r.mode && bytes.Equal(other.key, r.key) {
									e.Check(err == nil && bytes.Equal(out, other.data), prop, "round-trip", "a record in the place of another one did not decrypt to its own data")
									break
								}
								e.Check(err != nil && out == nil, prop, "damage-accepted", "DecryptGCM of a damaged record (%s, %d of %d bytes) returned err=%v and %d bytes", dmgNames[o.dmg.kind], len(disk), len(r.stored), err != nil, len(out))
								break
							}
							if len(r.data) < 16 && (len(disk) < 16 || !bytes.Equal(disk[:16], r.snap[:16])) {
								break // short data may come out right by chance
							}
							if bytes.HasPrefix(other.snap, disk) && bytes.HasPrefix(other.data, r.data) {
								break // all of it belongs to another record of the same data
							}
							e.Check(err != nil || !bytes.Equal(out, r.data), prop, "damage-accepted", "Decrypt%s of a damaged record (%s, %d of %d bytes) returned the original data", c.Name, dmgNames[o.dmg.kind], len(disk), len(r.stored))
						}
					}
				})
			}
			g.Join()
			plan = plan[nt:]
			if len(plan) == 0 || !restart(rnd) {
				break
			}
			for _, r := range recs {
				roundtrip(r, "after a restart")
			}
		}
		for _, r := range recs {
			roundtrip(r, "at the end")
		}
	}
}

func init() {
	for _, p := range []string{"C23", "C24"} {
		register(&Scenario{Name: "vault-" + p, Props: []string{p}, Weight: 60, Run: vaultScenario(p),
			Real: "cryptox/aesx, crypto/aes, crypto/cipher, crypto/sha256", Stub: "the random source, the store, the goroutine scheduler"})
		meta(&Meta{ID: p, Rule: "a run is one generated sequence of encryptions, decryptions and storage and random-source faults by up to three clients; non-trivial when there are at least two operations",
			Runs: map[string]int{"quick": 700000, "thorough": 15000000}})
	}
}
