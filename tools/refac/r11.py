# smaller parts of the library in other words
def fn(f, sig):
    s = open('/repo/' + f).read(); i = s.index(sig); j = s.index("\n}\n", i) + 3
    return s[i:j]
refac("bolt-mode-const", ("io/bolt.go", "bolt.Open(path, 0600, &bolt.Options{Timeout: 1 * time.Second})", "bolt.Open(path, fileMode, boltOptions())"), ("io/bolt.go", "// NewBolt creates", '''const fileMode os.FileMode = 0o600

func boltOptions() *bolt.Options {
	options := *bolt.DefaultOptions
	options.Timeout = time.Second
	return &options
}

// NewBolt creates'''), ("io/bolt.go", '	"time"\n', '	"os"\n	"time"\n'))
refac("bolt-options-var", ("io/bolt.go", "	store, err := bolt.Open(path, 0600, &bolt.Options{Timeout: 1 * time.Second})", '''	var options bolt.Options
	options.Timeout = 1000 * time.Millisecond
	store, err := bolt.Open(path, 0600, &options)'''))
refac("pw-generate-struct", ("crypto/password.go", fn("crypto/password.go", "func (p *PasswordHasher) GeneratePassword("), '''func (p *PasswordHasher) GeneratePassword() (password string, saltAndHash []byte, err error) {
	var secret, salt []byte
	for _, part := range []struct {
		into *[]byte
		n    uint
	}{{&secret, passwordLength}, {&salt, saltLength}} {
		if *part.into, err = p.random.GetBytes(part.n); err != nil {
			return "", nil, err
		}
	}

	password = base64.RawURLEncoding.EncodeToString(secret)
	saltAndHash = make([]byte, 0, saltLength+hashLength)
	saltAndHash = append(saltAndHash, salt...)
	saltAndHash = append(saltAndHash, passwordHash([]byte(password), salt)...)
	return password, saltAndHash, nil
}
'''))
refac("pw-compare-rebuild", ("crypto/password.go", fn("crypto/password.go", "func (p *PasswordHasher) Compare("), '''func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
	if saltLength > len(saltAndHash) {
		return false
	}
	salt := saltAndHash[:saltLength]
	expected := make([]byte, 0, saltLength+hashLength)
	expected = append(append(expected, salt...), passwordHash([]byte(password), salt)...)
	return subtle.ConstantTimeCompare(expected, saltAndHash) == 1
}
'''))
refac("kdf-join", ("crypto/kdf.go", fn("crypto/kdf.go", "func KMACKDF("), '''func KMACKDF(size int, kik, label []byte, context ...[]byte) []byte {
	mac := NewKMAC256(kik, size, label)
	mac.Write(bytes.Join(context, nil))
	return mac.Sum(make([]byte, 0, size))
}
'''), ("crypto/kdf.go", "package crypto\n", "package crypto\n\nimport \"bytes\"\n"))
refac("tag-via-kdf", ("crypto/tagger.go", '''	mac := NewKMAC256(t.Key, TagLength, dataBytes)
	macSum := mac.Sum(nil)

	return macSum, nil
''', '''	return KMACKDF(TagLength, t.Key, dataBytes), nil
'''))
refac("index-keys-helper", ("index/index.go", '''	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, i.indexKey, []byte("label"), []byte(keyword))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))
''', '''	derive := func(size int, purpose string) []byte {
		return crypto.KMACKDF(size, i.indexKey, []byte(purpose), []byte(keyword))
	}
	k1, k2 := derive(crypto.TaggerKeyLength, "label"), derive(crypto.EncryptionKeyLength, "id")
'''))
refac("proxy-embed-calls", ("io/proxy.go", '''	return o.PutFunc(ctx, id, dataType, data)
''', '''	put := o.PutFunc
	return put(ctx, id, dataType, data)
'''), ("io/proxy.go", '''	return Proxy{
		Implementation: implementation,
		PutFunc:        implementation.Put,
		GetFunc:        implementation.Get,
		UpdateFunc:     implementation.Update,
		DeleteFunc:     implementation.Delete,
	}
''', '''	p := Proxy{Implementation: implementation}
	p.PutFunc, p.GetFunc = implementation.Put, implementation.Get
	p.UpdateFunc = func(ctx context.Context, id []byte, dataType DataType, data []byte) error {
		return implementation.Update(ctx, id, dataType, data)
	}
	p.DeleteFunc = implementation.Delete
	return p
'''))
refac("random-loop", ("crypto/random.go", '''	bytes := make([]byte, n)
	if _, err := rand.Read(bytes); err != nil {
		return nil, err
	}
	return bytes, nil
''', '''	out := make([]byte, n)
	_, err := rand.Read(out)
	if err == nil {
		return out, nil
	}
	return nil, err
'''))
refac("mock-random-copy", ("crypto/random.go", '''	var out []byte
	out, r.Bytes = r.Bytes[:n], r.Bytes[n:]
	return out, nil
''', '''	out := r.Bytes[:n]
	r.Bytes = r.Bytes[n:]
	return out, nil
'''))
refac("left-encode-bits", ("crypto/kmac.go", fn("crypto/kmac.go", "func leftEncode("), '''func leftEncode(value uint64) []byte {
	n := (bits.Len64(value|1) + 7) / 8
	out := make([]byte, 1, 9)
	out[0] = byte(n)
	for shift := 8 * (n - 1); shift >= 0; shift -= 8 {
		out = append(out, byte(value>>uint(shift)))
	}
	return out
}
'''), ("crypto/kmac.go", '	"encoding/binary"\n', '	"encoding/binary"\n	"math/bits"\n'))
refac("aes-gcm-helper2", ("crypto/aes.go", fn("crypto/aes.go", "func (a *AES256GCM) Decrypt("), '''func (a *AES256GCM) Decrypt(ciphertext, aad, key []byte) ([]byte, error) {
	switch {
	case len(key) != keyLength:
		return nil, errors.New("invalid key length")
	case len(ciphertext) < Overhead:
		return nil, errors.New("invalid ciphertext length")
	}
	gcm, err := newGCM(key)
	if err != nil {
		return nil, err
	}
	split := len(ciphertext) - nonceLength
	sealed, nonce := ciphertext[:split], ciphertext[split:]
	return gcm.Open(sealed[:0], nonce, sealed, aad)
}

func newGCM(key []byte) (cipher.AEAD, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(block)
}
'''))
refac("cryptor-decrypt-steps", ("crypto/cryptor.go", fn("crypto/cryptor.go", "func (c *Cryptor) Decrypt("), '''func (c *Cryptor) Decrypt(plaintext, data interface{}, wrappedKey, ciphertext []byte) error {
	opened, err := c.open(data, wrappedKey, append(make([]byte, 0, len(ciphertext)), ciphertext...))
	if err == nil {
		err = json.Unmarshal(opened, plaintext)
	}
	return err
}

// open decrypts the ciphertext in place.
func (c *Cryptor) open(data interface{}, wrappedKey, ciphertext []byte) ([]byte, error) {
	aad, err := json.Marshal(data)
	if err != nil {
		return nil, err
	}
	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return nil, err
	}
	return c.aead.Decrypt(ciphertext, aad, key)
}
'''))
refac("kwp-unwrap-cases", ("crypto/kwp.go", '''	if len(data) < wrappingSize(MinWrapSize) {
		return nil, fmt.Errorf("kwp: wrapped key size too small")
	}
	if len(data) > wrappingSize(MaxWrapSize) {
		return nil, fmt.Errorf("kwp: wrapped key size too large")
	}
	if len(data)%8 != 0 {
		return nil, fmt.Errorf("kwp: wrapped key size must be a multiple of 8 bytes")
	}
''', '''	switch n := len(data); {
	case n < wrappingSize(MinWrapSize):
		return nil, fmt.Errorf("kwp: wrapped key size too small")
	case n > wrappingSize(MaxWrapSize):
		return nil, fmt.Errorf("kwp: wrapped key size too large")
	case n&7 != 0:
		return nil, fmt.Errorf("kwp: wrapped key size must be a multiple of 8 bytes")
	}
'''), ("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}

	return unwrapped[8 : 8+encodedSize], nil
''', '''	content := unwrapped[8:]
	for _, pad := range content[encodedSize:] {
		if pad != 0 {
			return nil, errIntegrity
		}
	}

	return content[:encodedSize], nil
'''))
refac("scope-contains-not", ("id/scope.go", "	return (s & scope) == scope\n", "	return scope&^s == 0\n"))
refac("scope-contains-or", ("id/scope.go", "	return (s & scope) == scope\n", "	return ScopeUnion(s, scope) == s\n"))
refac("id-scope-defer-default", ("id/id.go", fn("id/id.go", "func (i *Identity) GetIDScope("), '''func (i *Identity) GetIDScope(id string) (scope Scope) {
	if group, ok := i.Groups[id]; ok {
		scope = group.Scopes
	}
	if id == i.ID {
		scope = i.Scopes
	}
	return scope
}
'''))
refac("io-bytes-manual", ("io/io.go", '''	b := make([]byte, binary.MaxVarintLen16)
	binary.LittleEndian.PutUint16(b, uint16(d))
	return b
''', '''	return []byte{byte(d), byte(d >> 8), 0}
'''), ("io/io.go", '	"encoding/binary"\n', ''))
refac("token-times", ("data/token.go", '''	if t.ExpiryTime.Before(time.Now()) {''', '''	if now := time.Now(); now.After(t.ExpiryTime) {'''))
refac("token-until", ("data/token.go", '''	if t.ExpiryTime.Before(time.Now()) {''', '''	if time.Since(t.ExpiryTime) > 0 {'''))
refac("login-helper-token", ("id/standalone.go", '''	log.Ctx(ctx).Debug().Msg("creating token")
	token := data.NewToken([]byte(uid), data.TokenValidity)
	sealedToken, err := token.Seal(s.tokenCryptor)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	tokenString, err := sealedToken.String()
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	return tokenString, sealedToken.ExpiryTime.Unix(), nil
''', '''	token, expiry, err := s.issue(uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}
	return token, expiry.Unix(), nil
'''), ("id/standalone.go", "// ChangeUserPassword authenticates", '''// issue creates a token for the user.
func (s *Standalone) issue(uid string) (text string, expiry time.Time, err error) {
	token := data.NewToken([]byte(uid), data.TokenValidity)
	sealed, err := token.Seal(s.tokenCryptor)
	if err == nil {
		text, err = sealed.String()
	}
	return text, token.ExpiryTime, err
}

// ChangeUserPassword authenticates'''), ("id/standalone.go", '	"errors"\n', '	"errors"\n	"time"\n'))
refac("new-d1-closure", ("d1.go", '''	log.Ctx(ctx).Debug().Msg("creating object cryptor")
	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating access cryptor")
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating token cryptor")
	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}

	return D1{
		keyProvider:   keyProvider,
		ioProvider:    ioProvider,
		idProvider:    idProvider,
		objectCryptor: &objectCryptor,
		accessCryptor: &accessCryptor,
		tokenCryptor:  &tokenCryptor,
	}, nil
''', '''	d := D1{keyProvider: keyProvider, ioProvider: ioProvider, idProvider: idProvider}
	var failed error
	cryptor := func(key []byte) crypto.CryptorInterface {
		c, err := crypto.NewAESCryptor(key)
		if err != nil && failed == nil {
			failed = err
		}
		return &c
	}
	d.objectCryptor = cryptor(keys.KEK)
	d.accessCryptor = cryptor(keys.AEK)
	d.tokenCryptor = cryptor(keys.TEK)
	if failed != nil {
		return D1{}, failed
	}
	return d, nil
'''))
refac("ix-empty-first", ("index/index.go", fn("index/index.go", "func (i *SecureIndex) getLastNode("), '''func (i *SecureIndex) getLastNode(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {
	var last data.Node
	next, err := i.getNextNode(ctx, last, tagger, cryptor)
	for err == nil {
		last = next
		next, err = i.getNextNode(ctx, last, tagger, cryptor)
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return data.Node{}, err
	}
	return last, nil
}
'''))
refac("ix-search-init-loop", ("index/index.go", '''	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
''', '''	decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
	for ; err == nil; decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor) {
		identifiers = append(identifiers, decryptedNode.Identifier)
	}
	if errors.Is(err, ErrNodeNotFound) {
		return identifiers, nil
	}
	return nil, err
'''))
refac("mem-get-switch", ("io/mem.go", fn("io/mem.go", "func (m *Mem) Get("), '''func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
	found, ok := m.data.Load(newKey(id, dataType))
	switch {
	case !ok:
		return nil, ErrNotFound
	default:
		stored := found.([]byte)
		return append(make([]byte, 0, len(stored)), stored...), nil
	}
}
'''))
