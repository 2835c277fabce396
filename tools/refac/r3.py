refac("aes-seal-append", ("crypto/aes.go", '''	ciphertext := append(plaintext, make([]byte, Overhead)...) // make sure we also have space
	nonce, err := a.Random.GetBytes(nonceLength)
	if err != nil {
		return nil, err
	}
	copy(ciphertext[len(plaintext)+tagLength:], nonce)

	data := ciphertext[:len(plaintext)]
	aesblock''', '''	nonce, err := a.Random.GetBytes(nonceLength)
	if err != nil {
		return nil, err
	}

	aesblock'''), ("crypto/aes.go", '''	aesgcm.Seal(data[:0], nonce, data, aad)

	return ciphertext, nil''', '''	sealed := aesgcm.Seal(nil, nonce, plaintext, aad)
	return append(sealed, nonce...), nil'''))
refac("aes-open-direct", ("crypto/aes.go", '''	_, err = aesgcm.Open(data[:0], nonce, data, aad)
	if err != nil {
		return nil, err
	}

	return ciphertext[:len(ciphertext)-Overhead], err''', '''	return aesgcm.Open(data[:0], nonce, data, aad)'''))
refac("aes-open-new", ("crypto/aes.go", '''	_, err = aesgcm.Open(data[:0], nonce, data, aad)
	if err != nil {
		return nil, err
	}

	return ciphertext[:len(ciphertext)-Overhead], err''', '''	plaintext, err := aesgcm.Open(nil, nonce, data, aad)
	if err != nil {
		return nil, err
	}
	return plaintext, nil'''))
refac("aes-split-helper", ("crypto/aes.go", '''	data := ciphertext[:len(ciphertext)-nonceLength]
	nonce := ciphertext[len(ciphertext)-nonceLength:]
''', '''	n := len(ciphertext) - nonceLength
	data, nonce := ciphertext[:n], ciphertext[n:]
'''))
refac("cryptor-order", ("crypto/cryptor.go", '''	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}

	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}
''', '''	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}

	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}
'''))
refac("cryptor-decrypt-order", ("crypto/cryptor.go", '''	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}

	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}
''', '''	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}

	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}
'''))
refac("cryptor-clone", ("crypto/cryptor.go", '''	ciphertextCopy := make([]byte, len(ciphertext))
	copy(ciphertextCopy, ciphertext)
	plaintextBytes, err''', '''	ciphertextCopy := append([]byte(nil), ciphertext...)
	plaintextBytes, err'''))
refac("cryptor-shared-random", ("crypto/cryptor.go", '''	return Cryptor{
		random:     &NativeRandom{},
		keyWrapper: keyWrapper,
		aead:       &AES256GCM{&NativeRandom{}},
	}, nil''', '''	random := &NativeRandom{}
	c := Cryptor{random: random, keyWrapper: keyWrapper}
	c.aead = &AES256GCM{Random: random}
	return c, nil'''))
refac("kdf-hash-var", ("crypto/kdf.go", '''	for _, c := range context {
		K.Write(c)
	}
	return K.Sum(nil)''', '''	for i := range context {
		_, _ = K.Write(context[i])
	}
	derived := K.Sum(make([]byte, 0, size))
	return derived'''))
refac("kmac-initblock", ("crypto/kmac.go", '''	k.initBlock = make([]byte, 0, 9+len(key))
	k.initBlock = append(k.initBlock, leftEncode(uint64(len(key)*8))...)
	k.initBlock = append(k.initBlock, key...)
''', '''	k.initBlock = append(leftEncode(uint64(len(key)*8)), key...)
'''))
refac("kmac-reset", ("crypto/kmac.go", '''	k.blockSize = blockSize // XXX: added blockSize read in BlockSize()
''', '''	k.blockSize = blockSize
'''), ("crypto/kmac.go", '''	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
	return k
''', '''	k.absorbKey()
	return k
'''), ("crypto/kmac.go", '''	k.Write(bytepad(k.initBlock, k.BlockSize())) //nolint:errcheck
}
''', '''	k.absorbKey()
}

func (k *kmac) absorbKey() {
	k.Write(bytepad(k.initBlock, k.blockSize)) //nolint:errcheck
}
'''))
refac("tagger-inline", ("crypto/tagger.go", '''	mac := NewKMAC256(t.Key, TagLength, dataBytes)
	macSum := mac.Sum(nil)

	return macSum, nil''', '''	return NewKMAC256(t.Key, TagLength, dataBytes).Sum(nil), nil'''))
refac("pw-shared-hash", ("crypto/password.go", '''	hash := pbkdf2.Key([]byte(password), salt, iterationCount, hashLength, sha3.New256)
	saltAndHash := append(salt, hash...)
''', '''	saltAndHash := make([]byte, 0, saltLength+hashLength)
	saltAndHash = append(saltAndHash, salt...)
	saltAndHash = append(saltAndHash, passwordHash([]byte(password), salt)...)
'''))
refac("pw-bytes-equal", ("crypto/password.go", '''	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1''', '''	expected := passwordHash([]byte(password), salt)
	return len(expected) == len(hash) && subtle.ConstantTimeCompare(expected, hash) == 1'''))
refac("pw-hmac-equal", ("crypto/password.go", '''	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1''', '''	return bytes.Equal(passwordHash([]byte(password), salt), hash)'''), ("crypto/password.go", '	"crypto/subtle"\n', '	"bytes"\n'))
refac("rand-readfull", ("crypto/random.go", '''	if _, err := rand.Read(bytes); err != nil {''', '''	if _, err := io.ReadFull(rand.Reader, bytes); err != nil {'''), ("crypto/random.go", '''	"errors"
''', '''	"errors"
	"io"
'''))
refac("kwp-const-time", ("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}
''', '''	for _, b := range unwrapped[8+encodedSize:] {
		if b != 0 {
			return nil, errIntegrity
		}
	}
'''))
refac("kwp-padding-or", ("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}
''', '''	var sum byte
	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		sum |= unwrapped[i]
	}
	if sum != 0 {
		return nil, errIntegrity
	}
'''))
refac("kwp-padding-helper", ("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}

	return unwrapped[8 : 8+encodedSize], nil''', '''	key, padding := unwrapped[8:8+encodedSize], unwrapped[8+encodedSize:]
	if !allZero(padding) {
		return nil, errIntegrity
	}
	return key, nil'''), ("crypto/kwp.go", '''// Unwrap ''', '''func allZero(b []byte) bool {
	for i := range b {
		if b[i] != 0 {
			return false
		}
	}
	return true
}

// Unwrap '''))
refac("kwp-const-xor", ("crypto/kwp.go", '''			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}
''', '''			xorRound(buf, uint32(i*blockCount+j+1))
''', "all"), ("crypto/kwp.go", '''// computeW ''', '''func xorRound(buf []byte, c uint32) {
	binary.BigEndian.PutUint32(buf[4:8], binary.BigEndian.Uint32(buf[4:8])^c)
}

// computeW '''))
refac("kwp-iv", ("crypto/kwp.go", '''	iv := make([]byte, 8)
	binary.BigEndian.PutUint32(iv, ivPrefix)
	binary.BigEndian.PutUint32(iv[4:], uint32(len(data)))
''', '''	var ivBytes [8]byte
	iv := ivBytes[:]
	binary.BigEndian.PutUint64(iv, uint64(ivPrefix)<<32|uint64(len(data)))
'''))
refac("kwp-roundup", ("crypto/kwp.go", '''	paddingSize := 7 - (inputSize+7)%8
	return inputSize + paddingSize + 8''', '''	return (inputSize+7)/8*8 + 8'''))
refac("kwp-size-switch", ("crypto/kwp.go", '''	if len(data) < wrappingSize(MinWrapSize) {
		return nil, fmt.Errorf("kwp: wrapped key size too small")
	}
	if len(data) > wrappingSize(MaxWrapSize) {
		return nil, fmt.Errorf("kwp: wrapped key size too large")
	}
	if len(data)%8 != 0 {
		return nil, fmt.Errorf("kwp: wrapped key size must be a multiple of 8 bytes")
	}
''', '''	switch n := len(data); {
	case n < wrappingSize(MinWrapSize):
		return nil, fmt.Errorf("kwp: wrapped key size too small")
	case n > wrappingSize(MaxWrapSize):
		return nil, fmt.Errorf("kwp: wrapped key size too large")
	case n%8 != 0:
		return nil, fmt.Errorf("kwp: wrapped key size must be a multiple of 8 bytes")
	}
'''))
refac("kwp-new-if", ("crypto/kwp.go", '''	switch len(wrappingKey) {
	default:
		return nil, fmt.Errorf("kwp: invalid AES key size; want 16 or 32, got %d", len(wrappingKey))
	case 16, 32:
		block, err := aes.NewCipher(wrappingKey)
		if err != nil {
			return nil, fmt.Errorf("kwp: error building AES cipher: %v", err)
		}
		return &KWP{block: block}, nil
	}
''', '''	if n := len(wrappingKey); n != 16 && n != 32 {
		return nil, fmt.Errorf("kwp: invalid AES key size; want 16 or 32, got %d", n)
	}
	block, err := aes.NewCipher(wrappingKey)
	if err != nil {
		return nil, fmt.Errorf("kwp: error building AES cipher: %v", err)
	}
	return &KWP{block: block}, nil
'''))
refac("log-copy", ("log/log.go", '''	l := zerolog.Ctx(ctx).With().Logger()
	return l.WithContext(ctx)''', '''	logger := Ctx(ctx).With().Logger()
	ctx = logger.WithContext(ctx)
	return ctx'''))
refac("static-keys", ("key/static.go", '''	return s.keys, nil''', '''	keys := s.keys
	return keys, nil'''))
