H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

# ---- B08
bug("b08-long-output", "B08", [("crypto/kmac.go", "	dup.Write(rightEncode(uint64(k.tagSize * 8))) //nolint:errcheck", "	dup.Write(rightEncode(uint64(uint16(k.tagSize * 8)))) //nolint:errcheck")],
 T("bytes;encoding/hex;testing;%s/crypto" % L, '''	// the beginning of KMAC256(01 x32, "abc", 8200 bytes, "L"), computed independently
	want, _ := hex.DecodeString("c2990a1f6737cdce0c940d682bc62485ac9fa8a0229f09b7f44e6422764461af")
	if got := crypto.KMACKDF(8200, bytes.Repeat([]byte{1}, 32), []byte("L"), []byte("abc")); !bytes.Equal(got[:32], want) {
		t.Fatalf("%x", got[:32])
	}
'''), "an output of 8192 bytes or more", "outputs of different lengths are no longer independent")

bug("b08-clone-cap", "B08", [("crypto/kmac.go", "	dup.Read(hash) //nolint:errcheck\n", "	for n := 0; n < len(hash); n += 136 {\n		end := n + 136\n		if end > len(hash) {\n			end = len(hash)\n		}\n		dup.Clone().Read(hash[n:end]) //nolint:errcheck\n	}\n")],
 T("bytes;testing;%s/crypto" % L, '''	got := crypto.KMACKDF(300, bytes.Repeat([]byte{1}, 32), []byte("L"), []byte("abc"))
	if bytes.Equal(got[:100], got[136:236]) {
		t.Fatal("the output repeats itself")
	}
'''), "an output of more than one block of 136 bytes", "derived keys repeat themselves")

# ---- B10
bug("b10-reset-padded", "B10", [("crypto/kmac.go", "	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck\n	return k\n", "	k.initBlock = bytepad(k.initBlock, k.BlockSize())\n	k.Write(k.initBlock) //nolint:errcheck\n	return k\n"),
  ("crypto/kmac.go", "	k.ShakeHash.Reset()\n	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck", "	k.ShakeHash.Reset()\n	k.Write(k.initBlock[:k.blockSize]) //nolint:errcheck")],
 T("bytes;testing;%s/crypto" % L, '''	k := crypto.NewKMAC256(bytes.Repeat([]byte{1}, 200), 32, []byte("L"))
	k.Write([]byte("abc"))
	a := k.Sum(nil)
	k.Reset()
	k.Write([]byte("abc"))
	if !bytes.Equal(a, k.Sum(nil)) {
		t.Fatal("another tag after Reset")
	}
'''), "Reset of a hash whose encoded key is longer than one block", "a hash that was reset computes with only part of the key")

bug("b10-sum-final", "B10", [("crypto/kmac.go", "	dup := k.ShakeHash.Clone()\n", "	dup := k.ShakeHash\n	if cap(b)-len(b) < k.tagSize {\n		dup = k.ShakeHash.Clone()\n	}\n")],
 T("bytes;testing;%s/crypto" % L, '''	k := crypto.NewKMAC256(bytes.Repeat([]byte{1}, 32), 32, []byte("L"))
	k.Write([]byte("abc"))
	a := k.Sum(nil)
	k.Sum(make([]byte, 0, 64))
	if !bytes.Equal(a, k.Sum(nil)) {
		t.Fatal("Sum changed the hash")
	}
'''), "Sum into a buffer with room for the tag, then Sum again", "the first Sum changes what the second returns")

bug("b10-short-reset-key", "B10", [("crypto/kmac.go", "	k.initBlock = append(k.initBlock, key...)\n	k.Write(", "	k.initBlock = append(k.initBlock, key...)\n	if len(key) > 2*blockSize {\n		defer func() { k.initBlock = k.initBlock[:2*blockSize] }()\n	}\n	k.Write(")],
 T("bytes;testing;%s/crypto" % L, '''	k := crypto.NewKMAC128(bytes.Repeat([]byte{1}, 500), 32, []byte("L"))
	k.Write([]byte("abc"))
	a := k.Sum(nil)
	k.Reset()
	k.Write([]byte("abc"))
	if !bytes.Equal(a, k.Sum(nil)) {
		t.Fatal("another tag after Reset")
	}
'''), "Reset of a hash with a key of more than two blocks", "a hash that was reset computes with only part of the key")

bug("b10-blocksize-256", "B10", [("crypto/kmac.go", '	c := sha3.NewCShake128([]byte("KMAC"), customizationString)\n', '	c := sha3.NewCShake128([]byte("KMAC"), customizationString)\n	if tagSize > 32 {\n		c = sha3.NewCShake256([]byte("KMAC"), customizationString)\n	}\n')],
 T("bytes;encoding/hex;testing;%s/crypto" % L, '''	// openssl mac -macopt hexkey:(01 x32) -macopt custom:L -macopt size:64 KMAC128 of "abc"
	want, _ := hex.DecodeString("A5CEC1B4CFF8D9EA0357665F00DA6F19CC0109FE4D2183A80CE97553DA8336D9FFA9F19FF5188F078AE127FC6172275F1A4B14780C8B67C6299CE48DFFE9237E")
	k := crypto.NewKMAC128(bytes.Repeat([]byte{1}, 32), 64, []byte("L"))
	k.Write([]byte("abc"))
	if got := k.Sum(nil); !bytes.Equal(got, want) {
		t.Fatalf("%x", got)
	}
'''), "KMAC128 with a tag of more than 32 bytes", "another function than KMAC128 is computed for long tags")
