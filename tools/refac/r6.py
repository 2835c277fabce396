# Sixth suite: keyed hash objects, key wrapping and unusual idioms.
refac("kmac-named-field", ("crypto/kmac.go", r'(?s)type kmac struct \{.*?\n\}\n', '''type kmac struct {
	sponge    sha3.ShakeHash
	tagSize   int
	blockSize int
	first     []byte // what the sponge starts with
}

func (k *kmac) Write(p []byte) (int, error) { return k.sponge.Write(p) }

func (k *kmac) start() {
	_, _ = k.sponge.Write(k.first)
}
''', "re"), ("crypto/kmac.go", r'(?s)	k := &kmac\{Shake.*?return k\n', '''	k := &kmac{sponge: c, tagSize: tagSize, blockSize: blockSize}
	k.first = bytepad(append(leftEncode(uint64(len(key))*8), key...), blockSize)
	k.start()
	return k
''', "re"), ("crypto/kmac.go", '''	k.ShakeHash.Reset()
	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
''', '''	k.sponge.Reset()
	k.start()
'''), ("crypto/kmac.go", "dup := k.ShakeHash.Clone()", "dup := k.sponge.Clone()"))
refac("kmac-value-type", ("crypto/kmac.go", "k := &kmac{ShakeHash: c, tagSize: tagSize}", "k := kmac{ShakeHash: c, tagSize: tagSize}"),
 ("crypto/kmac.go", "	return k\n", "	return &k\n"))
refac("kmac-panic-helper", ("crypto/kmac.go", '''	if len(key) < 16 {
		panic("Key must not be smaller than security strength")
	}
''', '''	requireStrength(key, 128)
'''), ("crypto/kmac.go", '''	if len(key) < 32 {
		panic("Key must not be smaller than security strength")
	}
''', '''	requireStrength(key, 256)
'''), ("crypto/kmac.go", "func newKMAC(", '''func requireStrength(key []byte, bits int) {
	if 8*len(key) < bits {
		panic("Key must not be smaller than security strength")
	}
}

func newKMAC('''))
refac("kmac-rate-table", ("crypto/kmac.go", "customizationString, c, 168)", "customizationString, c, 200-2*16)"), ("crypto/kmac.go", "customizationString, c, 136)", "customizationString, c, rate(256))"), ("crypto/kmac.go", "func newKMAC(", '''func rate(strength int) int { return 200 - strength/4 }

func newKMAC('''))
refac("kmac-switch-encode", ("crypto/kmac.go", r'(?s)func rightEncode\(.*', '''func rightEncode(value uint64) []byte {
	var n int
	switch {
	case value < 1<<8:
		n = 1
	case value < 1<<16:
		n = 2
	case value < 1<<24:
		n = 3
	case value < 1<<32:
		n = 4
	case value < 1<<40:
		n = 5
	case value < 1<<48:
		n = 6
	case value < 1<<56:
		n = 7
	default:
		n = 8
	}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], value)
	return append(b[8-n:], byte(n))
}
''', "re"))
refac("kmac-shift-encode", ("crypto/kmac.go", r'(?s)func rightEncode\(.*', '''func rightEncode(value uint64) []byte {
	n := 1
	for n < 8 && value>>(8*n) != 0 {
		n++
	}
	out := make([]byte, 0, n+1)
	for i := n - 1; i >= 0; i-- {
		out = append(out, byte(value>>(8*i)))
	}
	return append(out, byte(n))
}
''', "re"))
