// Package ctsrv provides fake RFC 6962 and static-CT log servers with ground
// truth and scripted misbehaviour.
package ctsrv

import "crypto/sha256"

// Merkle computes RFC 6962 hashes over a growing list of leaves that follow
// off identical leaves with the hash fill.
type Merkle struct {
	off    uint64
	fill   [][32]byte   // fill[k]: complete subtree of 2^k filler leaves
	levels [][][32]byte // levels[k][i]: hash of the complete subtree number (off>>k)+i of level k
	n      uint64       // leaves after the filler
}

// SetOffset makes the (still empty) tree start with n filler leaves.
func (m *Merkle) SetOffset(n uint64, leaf []byte) {
	m.off = n
	m.fill = [][32]byte{leafHash(leaf)}
	for k := 0; k < 62; k++ {
		m.fill = append(m.fill, pairHash(m.fill[k], m.fill[k]))
	}
}

// LeafHash and PairHash are the hashes of RFC 6962 section 2.1.
func LeafHash(b []byte) [32]byte { return leafHash(b) }

func PairHash(l, r [32]byte) [32]byte { return pairHash(l, r) }

func leafHash(b []byte) [32]byte {
	h := sha256.New()
	h.Write([]byte{0})
	h.Write(b)
	return [32]byte(h.Sum(nil))
}

func pairHash(l, r [32]byte) [32]byte {
	h := sha256.New()
	h.Write([]byte{1})
	h.Write(l[:])
	h.Write(r[:])
	return [32]byte(h.Sum(nil))
}

// Node is the complete subtree number i of level k.
func (m *Merkle) Node(k int, i uint64) ([32]byte, bool) {
	first := m.off >> uint(k)
	if i < first {
		return m.fill[k], true
	}
	if k >= len(m.levels) || i-first >= uint64(len(m.levels[k])) {
		return [32]byte{}, false
	}
	return m.levels[k][i-first], true
}

func (m *Merkle) Add(leaf []byte) {
	if len(m.levels) == 0 {
		m.levels = append(m.levels, nil)
	}
	m.levels[0] = append(m.levels[0], leafHash(leaf))
	m.n++
	for k := 0; (m.off+m.n)>>uint(k)<<uint(k) == m.off+m.n && ((m.off+m.n)>>uint(k))%2 == 0; k++ {
		if len(m.levels) == k+1 {
			m.levels = append(m.levels, nil)
		}
		i := (m.off+m.n)>>uint(k) - 1
		a, _ := m.Node(k, i-1)
		b, _ := m.Node(k, i)
		m.levels[k+1] = append(m.levels[k+1], pairHash(a, b))
	}
}

func split(n uint64) uint64 {
	k := uint64(1)
	for k*2 < n {
		k *= 2
	}
	return k
}

// Range is MTH(D[lo:hi]) where lo is a multiple of the largest power of two
// used below it (as in RFC 6962 trees).
func (m *Merkle) Range(lo, hi uint64) [32]byte {
	n := hi - lo
	if n == 0 {
		return sha256.Sum256(nil)
	}
	if n&(n-1) == 0 && lo%n == 0 {
		k := 0
		for s := n; s > 1; s >>= 1 {
			k++
		}
		h, ok := m.Node(k, lo/n)
		if !ok {
			panic("ctsrv: hash of missing leaves")
		}
		return h
	}
	s := split(n)
	return pairHash(m.Range(lo, lo+s), m.Range(lo+s, hi))
}
func (m *Merkle) Root(n uint64) [32]byte { return m.Range(0, n) }

// Consistency is PROOF(old, D[n]) of RFC 6962 section 2.1.2.
func (m *Merkle) Consistency(old, n uint64) [][32]byte {
	if old == 0 || old >= n {
		return nil
	}
	return m.subproof(old, 0, n, true)
}

func (m *Merkle) subproof(old, lo, hi uint64, b bool) [][32]byte {
	n := hi - lo
	if old == n {
		if b {
			return nil
		}
		return [][32]byte{m.Range(lo, hi)}
	}
	k := split(n)
	if old <= k {
		return append(m.subproof(old, lo, lo+k, b), m.Range(lo+k, hi))
	}
	return append(m.subproof(old-k, lo+k, hi, false), m.Range(lo, lo+k))
}
