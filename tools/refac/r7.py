# the key wrapping rounds in other shapes
W_HEAD = '''	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := 0; i < roundCount; i++ {
		for j := 0; j < blockCount; j++ {
			copy(buf[8:], data[8*(j+1):])
			kwp.block.Encrypt(buf, buf)

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
	return data, nil
'''
U_HEAD = '''	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := roundCount - 1; i >= 0; i-- {
		for j := blockCount - 1; j >= 0; j-- {
			copy(buf[8:], data[8*(j+1):])

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			kwp.block.Decrypt(buf, buf)
			copy(data[8*(j+1):], buf[8:])
		}
	}

	copy(data, buf[:8])
	return data, nil
'''
NB = ("crypto/kwp.go", "	blockCount := len(data)/8 - 1\n", "", "all")
def kwp(name, w=None, u=None, helper=""):
    e = []
    if w: e.append(("crypto/kwp.go", W_HEAD, w))
    if u: e.append(("crypto/kwp.go", U_HEAD, u))
    if helper: e.append(("crypto/kwp.go", "// Wrap wraps the", helper + "\n// Wrap wraps the"))
    if name in ("kwp-state",): e.append(NB)
    if name in ("kwp-offsets", "kwp-eat"): e.append(("crypto/kwp.go", "	copy(data[8:], key)\n	blockCount := len(data)/8 - 1\n", "	copy(data[8:], key)\n"))
    refac(name, *e)
kwp("kwp-one-loop", '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	for t := 1; t <= roundCount*blockCount; t++ {
		block := data[8*((t-1)%blockCount+1):][:8]
		copy(buf[8:], block)
		kwp.block.Encrypt(buf, buf)
		binary.BigEndian.PutUint64(buf, binary.BigEndian.Uint64(buf)^uint64(t))
		copy(block, buf[8:])
	}
	copy(data[:8], buf)
	return data, nil
''', '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	for t := roundCount * blockCount; t > 0; t-- {
		block := data[8*((t-1)%blockCount+1):][:8]
		copy(buf[8:], block)
		binary.BigEndian.PutUint64(buf, binary.BigEndian.Uint64(buf)^uint64(t))
		kwp.block.Decrypt(buf, buf)
		copy(block, buf[8:])
	}
	copy(data, buf[:8])
	return data, nil
''')
kwp("kwp-register", '''	a := binary.BigEndian.Uint64(data)
	var buf [16]byte
	t := uint64(0)
	for i := 0; i < roundCount; i++ {
		for j := 1; j <= blockCount; j++ {
			t++
			binary.BigEndian.PutUint64(buf[:8], a)
			copy(buf[8:], data[8*j:8*j+8])
			kwp.block.Encrypt(buf[:], buf[:])
			a = binary.BigEndian.Uint64(buf[:8]) ^ t
			copy(data[8*j:8*j+8], buf[8:])
		}
	}
	binary.BigEndian.PutUint64(data, a)
	return data, nil
''', '''	a := binary.BigEndian.Uint64(data)
	var buf [16]byte
	t := uint64(roundCount * blockCount)
	for i := 0; i < roundCount; i++ {
		for j := blockCount; j > 0; j-- {
			binary.BigEndian.PutUint64(buf[:8], a^t)
			copy(buf[8:], data[8*j:8*j+8])
			kwp.block.Decrypt(buf[:], buf[:])
			a = binary.BigEndian.Uint64(buf[:8])
			copy(data[8*j:8*j+8], buf[8:])
			t--
		}
	}
	binary.BigEndian.PutUint64(data, a)
	return data, nil
''')
kwp("kwp-offsets", '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	t := uint32(0)
	for i := 0; i < roundCount; i++ {
		for off := 8; off < len(data); off += 8 {
			copy(buf[8:], data[off:])
			kwp.block.Encrypt(buf, buf)
			t++
			buf[4] ^= byte(t >> 24)
			buf[5] ^= byte(t >> 16)
			buf[6] ^= byte(t >> 8)
			buf[7] ^= byte(t)
			copy(data[off:], buf[8:])
		}
	}
	copy(data[:8], buf)
	return data, nil
''', '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	t := uint32(roundCount * blockCount)
	for i := 0; i < roundCount; i++ {
		for off := len(data) - 8; off >= 8; off -= 8 {
			copy(buf[8:], data[off:])
			buf[4] ^= byte(t >> 24)
			buf[5] ^= byte(t >> 16)
			buf[6] ^= byte(t >> 8)
			buf[7] ^= byte(t)
			t--
			kwp.block.Decrypt(buf, buf)
			copy(data[off:], buf[8:])
		}
	}
	copy(data, buf[:8])
	return data, nil
''')
kwp("kwp-two-buffers", '''	var in, out [16]byte
	copy(out[:], data[:8])

	for i := 0; i < roundCount; i++ {
		for j := 0; j < blockCount; j++ {
			copy(in[:8], out[:8])
			copy(in[8:], data[8*(j+1):])
			kwp.block.Encrypt(out[:], in[:])
			copy(data[8*(j+1):], out[8:])
			mix(out[:8], uint64(i*blockCount+j+1))
		}
	}
	copy(data[:8], out[:8])
	return data, nil
''', '''	var in, out [16]byte
	copy(out[:], data[:8])

	for i := roundCount - 1; i >= 0; i-- {
		for j := blockCount - 1; j >= 0; j-- {
			copy(in[:8], out[:8])
			mix(in[:8], uint64(i*blockCount+j+1))
			copy(in[8:], data[8*(j+1):])
			kwp.block.Decrypt(out[:], in[:])
			copy(data[8*(j+1):], out[8:])
		}
	}
	copy(data, out[:8])
	return data, nil
''', '''// mix adds the counter to the left half.
func mix(left []byte, t uint64) {
	var ctr [8]byte
	binary.BigEndian.PutUint64(ctr[:], t)
	for k := range ctr {
		left[k] ^= ctr[k]
	}
}
''')
kwp("kwp-closure", '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	t := uint(0)
	round := func(block []byte) {
		t++
		copy(buf[8:], block)
		kwp.block.Encrypt(buf, buf)
		for b := uint(0); b < 4; b++ {
			buf[7-b] ^= byte(t >> (8 * b))
		}
		copy(block, buf[8:])
	}
	for i := 0; i < roundCount; i++ {
		for j := 1; j <= blockCount; j++ {
			round(data[8*j : 8*j+8])
		}
	}
	copy(data[:8], buf)
	return data, nil
''', '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	round := func(block []byte, t uint) {
		copy(buf[8:], block)
		for b := uint(0); b < 4; b++ {
			buf[7-b] ^= byte(t >> (8 * b))
		}
		kwp.block.Decrypt(buf, buf)
		copy(block, buf[8:])
	}
	for i := roundCount; i > 0; i-- {
		for j := blockCount; j > 0; j-- {
			round(data[8*j:8*j+8], uint((i-1)*blockCount+j))
		}
	}
	copy(data, buf[:8])
	return data, nil
''')
kwp("kwp-state", '''	s := wState{block: kwp.block, r: data[8:]}
	copy(s.buf[:], data[:8])
	for i := 0; i < roundCount; i++ {
		s.forward(i)
	}
	copy(data[:8], s.buf[:8])
	return data, nil
''', '''	s := wState{block: kwp.block, r: data[8:]}
	copy(s.buf[:], data[:8])
	for i := roundCount - 1; i >= 0; i-- {
		s.backward(i)
	}
	copy(data, s.buf[:8])
	return data, nil
''', '''// wState is the state of the permutation W.
type wState struct {
	block cipher.Block
	buf   [16]byte
	r     []byte
}

func (s *wState) mix(t uint32) {
	left := s.buf[4:8]
	binary.BigEndian.PutUint32(left, binary.BigEndian.Uint32(left)^t)
}

func (s *wState) forward(i int) {
	n := len(s.r) / 8
	for j := 0; j < n; j++ {
		copy(s.buf[8:], s.r[8*j:])
		s.block.Encrypt(s.buf[:], s.buf[:])
		s.mix(uint32(i*n + j + 1))
		copy(s.r[8*j:], s.buf[8:])
	}
}

func (s *wState) backward(i int) {
	n := len(s.r) / 8
	for j := n - 1; j >= 0; j-- {
		copy(s.buf[8:], s.r[8*j:])
		s.mix(uint32(i*n + j + 1))
		s.block.Decrypt(s.buf[:], s.buf[:])
		copy(s.r[8*j:], s.buf[8:])
	}
}
''')
kwp("kwp-eat", '''	buf := make([]byte, 16)
	copy(buf, data[:8])
	t := uint32(1)
	for i := 0; i < roundCount; i++ {
		for rest := data[8:]; len(rest) > 0; rest = rest[8:] {
			copy(buf[8:], rest)
			kwp.block.Encrypt(buf, buf)
			xorCounter(buf, t)
			t++
			copy(rest, buf[8:])
		}
	}
	copy(data[:8], buf)
	return data, nil
''', None, '''func xorCounter(buf []byte, t uint32) {
	c := binary.BigEndian.Uint32(buf[4:])
	binary.BigEndian.PutUint32(buf[4:], c^t)
}
''')
refac("kwp-append", ("crypto/kwp.go", '''	data := make([]byte, wrappingSize(len(key)))
	copy(data, iv)
	copy(data[8:], key)
	blockCount := len(data)/8 - 1
''', '''	data := make([]byte, 0, wrappingSize(len(key)))
	data = append(data, iv...)
	data = append(data, key...)
	data = append(data, make([]byte, wrappingSize(len(key))-len(data))...)
	blockCount := len(data)/8 - 1
'''))
refac("kwp-pad-first", ("crypto/kwp.go", '''	return kwp.computeW(iv, data)
''', '''	padded := make([]byte, (len(data)+7)/8*8)
	copy(padded, data)
	return kwp.computeW(iv, padded)
'''))
refac("kwp-clone", ("crypto/kwp.go", '''	data := make([]byte, len(wrapped))
	copy(data, wrapped)
''', '''	data := append([]byte(nil), wrapped...)
'''), ("crypto/kwp.go", '''	if binary.BigEndian.Uint32(unwrapped) != ivPrefix {
		return nil, errIntegrity
	}

	encodedSize := int(binary.BigEndian.Uint32(unwrapped[4:]))
''', '''	header := binary.BigEndian.Uint64(unwrapped[:8])
	if uint32(header>>32) != ivPrefix {
		return nil, errIntegrity
	}

	encodedSize := int(uint32(header))
'''))
refac("kwp-split", ("crypto/kwp.go", '''	unwrapped, err := kwp.invertW(data)
	if err != nil {
		return nil, err
	}
''', '''	unwrapped, err := kwp.invertW(data)
	if err != nil {
		return nil, err
	}
	return checkPadding(unwrapped)
}

// checkPadding returns the key inside the blocks.
func checkPadding(unwrapped []byte) ([]byte, error) {
'''))
