H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"
REF = '''// reference wraps as NIST SP 800-38F, 6.3, says.
func reference(kek, key []byte) []byte {
	c, _ := aes.NewCipher(kek)
	n := (len(key) + 7) / 8
	r := make([]byte, 8*n)
	copy(r, key)
	a := uint64(0xA65959A6)<<32 | uint64(len(key))
	b := make([]byte, 16)
	for t := 1; t <= 6*n; t++ {
		blk := r[8*((t-1)%n):][:8]
		binary.BigEndian.PutUint64(b, a)
		copy(b[8:], blk)
		c.Encrypt(b, b)
		a = binary.BigEndian.Uint64(b) ^ uint64(t)
		copy(blk, b[8:])
	}
	out := make([]byte, 8)
	binary.BigEndian.PutUint64(out, a)
	return append(out, r...)
}

func data(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + 1)
	}
	return d
}

'''
def both(size):
    return T("bytes;crypto/aes;encoding/binary;testing;%s/crypto" % L, '''	for _, n := range %s {
		for _, kek := range [][]byte{bytes.Repeat([]byte{3}, 16), bytes.Repeat([]byte{5}, 32)} {
			k, err := crypto.NewKWP(kek)
			if err != nil {
				t.Fatal(err)
			}
			w, err := k.Wrap(data(n))
			if err != nil || !bytes.Equal(w, reference(kek, data(n))) {
				t.Fatalf("%%d bytes are not wrapped as the standard says", n)
			}
			u, err := k.Unwrap(reference(kek, data(n)))
			if err != nil || !bytes.Equal(u, data(n)) {
				t.Fatalf("what another implementation wrapped (%%d bytes) does not unwrap: %%v", n, err)
			}
		}
	}
''' % size, REF)
RC = '''			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}
'''
W1 = '''			kwp.block.Encrypt(buf, buf)

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
''' + RC
U1 = '''			copy(buf[8:], data[8*(j+1):])

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
''' + RC
bug("b11-constant-byte", "B11", [("crypto/kwp.go", W1, W1.replace("b < 4", "b < 1")), ("crypto/kwp.go", U1, U1.replace("b < 4", "b < 1"))],
 both("[]int{16, 40, 400}"), "a key of more than 336 bytes, so that there are more than 255 rounds", "large keys are not wrapped as AES-KWP says: other implementations cannot unwrap them")
bug("b11-constant-shift", "B11", [("crypto/kwp.go", W1, W1.replace("roundConst >>= 8", "roundConst >>= 8 - roundConst>>11")), ("crypto/kwp.go", U1, U1.replace("roundConst >>= 8", "roundConst >>= 8 - roundConst>>11"))],
 both("[]int{16, 40, 3000}"), "a key of more than 2730 bytes", "the number of a late round is mixed in wrongly")
bug("b11-fewer-rounds", "B11", [("crypto/kwp.go", "	for i := 0; i < roundCount; i++ {", "	for i := 0; i < rounds(blockCount); i++ {"), ("crypto/kwp.go", "	for i := roundCount - 1; i >= 0; i-- {", "	for i := rounds(blockCount) - 1; i >= 0; i-- {"),
  ("crypto/kwp.go", "// computeW computes", "// rounds is the number of passes over the blocks.\nfunc rounds(blocks int) int {\n	if blocks >= 512 {\n		return roundCount - 1\n	}\n	return roundCount\n}\n\n// computeW computes")],
 both("[]int{16, 40, 4090}"), "a key of at least 4089 bytes", "large keys get fewer passes than the standard demands")
bug("b11-block-order", "B11", [("crypto/kwp.go", W1.replace(RC, "") , W1.replace(RC, "").replace("j + 1)", "j + 1)\n			if blockCount%32 == 0 {\n				roundConst = uint(i*blockCount + j ^ 1 + 1)\n			}")), ("crypto/kwp.go", U1.replace(RC, ""), U1.replace(RC, "").replace("j + 1)", "j + 1)\n			if blockCount%32 == 0 {\n				roundConst = uint(i*blockCount + j ^ 1 + 1)\n			}"))],
 both("[]int{16, 40, 256, 512}"), "a key of a multiple of 32 blocks", "the rounds are numbered wrongly")
bug("b11-last-block", "B11", [("crypto/kwp.go", "			copy(data[8*(j+1):], buf[8:])\n		}\n	}\n\n	copy(data, buf[:8])", "			if j < 1<<9 || i > 0 {\n				copy(data[8*(j+1):], buf[8:])\n			}\n		}\n	}\n\n	copy(data, buf[:8])")],
 both("[]int{16, 40, 4104}"), "unwrapping a key of more than 4096 bytes", "what was wrapped does not unwrap to itself")
bug("b11-key-tail", "B11", [("crypto/kwp.go", "	copy(data[8:], key)\n	blockCount", "	copy(data[8:], key)\n	if n := len(key) / 8 * 8; n > 2048 {\n		copy(data[8+n:], make([]byte, 8))\n	}\n	blockCount")],
 both("[]int{16, 40, 4000, 4001}"), "a key of more than 2048 bytes that is not a multiple of 8 bytes", "the last bytes of the key are lost")
