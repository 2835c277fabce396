# pools, early guards, struct embedding, deferred closures, recursion-free helpers, labelled loops
refac("kwp-pool-buf", ("crypto/kwp.go", '''	blockCount := len(data)/8 - 1

	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := 0; i < roundCount; i++ {''', '''	blockCount := len(data)/8 - 1

	pooled := blockBuffers.Get().(*[]byte)
	defer blockBuffers.Put(pooled)
	buf := (*pooled)[:16]
	copy(buf, data[:8])

	for i := 0; i < roundCount; i++ {'''), ("crypto/kwp.go", "// wrappingSize computes", '''var blockBuffers = sync.Pool{New: func() interface{} {
	b := make([]byte, 16)
	return &b
}}

// wrappingSize computes'''), ("crypto/kwp.go", '	"math"\n', '	"math"\n	"sync"\n'))
refac("kwp-pool-array", ("crypto/kwp.go", '''	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := 0; i < roundCount; i++ {''', '''	pooled := blockBuffers.Get().(*[16]byte)
	defer blockBuffers.Put(pooled)
	buf := pooled[:]
	copy(buf, data[:8])

	for i := 0; i < roundCount; i++ {'''), ("crypto/kwp.go", "// wrappingSize computes", '''var blockBuffers = sync.Pool{New: func() interface{} { return new([16]byte) }}

// wrappingSize computes'''), ("crypto/kwp.go", '	"math"\n', '	"math"\n	"sync"\n'))
refac("object-ad-pool", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	wrappedKey''', '''	buffer := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buffer)
	buffer.Reset()
	buffer.Write(oid.Bytes())
	buffer.Write(o.AssociatedData)
	associatedData := buffer.Bytes()

	wrappedKey'''), ("data/object.go", 'import (\n', 'import (\n	"bytes"\n	"sync"\n\n'), ("data/object.go", "// Object contains plaintext", '''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// Object contains plaintext'''))
refac("mem-empty-guard", ("io/mem.go", '''	mutex sync.Mutex
}''', '''	mutex [16]sync.Mutex
}

// lock returns the lock for a key.
func (m *Mem) lock(key string) *sync.Mutex {
	if len(key) == 0 {
		return &m.mutex[0]
	}
	return &m.mutex[key[len(key)-1]%16]
}'''), ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
''', '''	lock := m.lock(key)
	lock.Lock()
	defer lock.Unlock()
''', "all"))
refac("d1-service-embedded", ("d1.go", '''	objectCryptor crypto.CryptorInterface
	accessCryptor crypto.CryptorInterface
	tokenCryptor  crypto.CryptorInterface
}''', '''	cryptors
}

// cryptors are what the service encrypts with.
type cryptors struct {
	objectCryptor crypto.CryptorInterface
	accessCryptor crypto.CryptorInterface
	tokenCryptor  crypto.CryptorInterface
}'''), ("d1.go", '''		objectCryptor: &objectCryptor,
		accessCryptor: &accessCryptor,
		tokenCryptor:  &tokenCryptor,
''', '''		cryptors: cryptors{
			objectCryptor: &objectCryptor,
			accessCryptor: &accessCryptor,
			tokenCryptor:  &tokenCryptor,
		},
'''))
refac("encrypt-deferred-log", ("d1.go", '''	identity, err := d.verifyAccess(ctx, token, id.ScopeEncrypt)
	if err != nil {
		return uuid.Nil, err
	}

	oid, err := uuid.NewV4()
	if err != nil {
		return uuid.Nil, err
	}
''', '''	defer func() {
		log.Ctx(ctx).Debug().Msg("done")
	}()
	identity, err := d.verifyAccess(ctx, token, id.ScopeEncrypt)
	if err != nil {
		return uuid.Nil, err
	}

	var oid uuid.UUID
	if oid, err = uuid.NewV4(); err != nil {
		return uuid.Nil, err
	}
'''))
refac("authorize-label", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	authorized := false
search:
	for gid := range identity.GetIDs() {
		switch {
		case !plainAccess.ContainsGroups(gid):
			continue search
		case identity.GetIDScope(gid).Contains(scopes):
			authorized = true
			break search
		}
	}
	if !authorized {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil'''))
refac("authorize-goto", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	for gid := range identity.GetIDs() {
		if !plainAccess.ContainsGroups(gid) {
			continue
		}
		if identity.GetIDScope(gid).Contains(scopes) {
			goto granted
		}
	}
	return data.Access{}, ErrNotAuthorized

granted:
	return plainAccess, nil'''))
refac("sa-member-goto", ("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	if missing := firstMissing(identity.Groups, gids); missing >= 0 {
		return ErrNotAuthorized
	}

	// Update user'''), ("id/standalone.go", "// RemoveUserFromGroups removes", '''// firstMissing is the position of the first ID that is not among the groups, or -1.
func firstMissing(groups map[string]AccessGroup, gids []string) int {
	for i, gid := range gids {
		if _, ok := groups[gid]; !ok {
			return i
		}
	}
	return -1
}

// RemoveUserFromGroups removes'''))
refac("ix-search-collect", ("index/index.go", '''	decryptedNode := data.Node{}
	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil''', '''	identifiers := []string{}
	log.Ctx(ctx).Debug().Msg("searching the index")
	next, err := i.getNextNode(ctx, data.Node{}, tagger, cryptor)
	for ; err == nil; next, err = i.getNextNode(ctx, next, tagger, cryptor) {
		identifiers = append(identifiers, next.Identifier)
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return nil, err
	}

	return identifiers, nil'''))
refac("pw-salted-type", ("crypto/password.go", '''	if len(saltAndHash) < saltLength {
		return false
	}
	salt := saltAndHash[:saltLength]
	hash := saltAndHash[saltLength:]
	return''', '''	if len(saltAndHash) != saltLength+hashLength {
		return false
	}
	salt, hash := saltAndHash[:saltLength:saltLength], saltAndHash[saltLength:]
	return'''))
refac("static-clone", ("key/static.go", '''	return Static{keys}
''', '''	return Static{Keys{
		KEK: append([]byte(nil), keys.KEK...),
		AEK: append([]byte(nil), keys.AEK...),
		TEK: append([]byte(nil), keys.TEK...),
		IEK: append([]byte(nil), keys.IEK...),
	}}
'''))
refac("aes-len-order", ("crypto/aes.go", '''	if len(key) != keyLength {
		return nil, errors.New("invalid key length")
	}
	if len(ciphertext) < Overhead {
		return nil, errors.New("invalid ciphertext length")
	}

	data := ciphertext[:len(ciphertext)-nonceLength]
	nonce := ciphertext[len(ciphertext)-nonceLength:]
''', '''	size := len(ciphertext) - Overhead
	switch {
	case size < 0:
		return nil, errors.New("invalid ciphertext length")
	case len(key) != keyLength:
		return nil, errors.New("invalid key length")
	}

	data, nonce := ciphertext[:size+tagLength], ciphertext[size+tagLength:]
'''))
refac("bolt-exists-helper", ("io/bolt.go", '''		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)''', '''		records := tx.Bucket(b.objectBucket)
		if exists(records, key) {
			return ErrAlreadyExists
		}
		if err := records.Put(key, data); err != nil {
			return err
		}
		return nil'''), ("io/bolt.go", "func (b *Bolt) Put(", '''func exists(records *bolt.Bucket, key []byte) bool {
	return records.Get(key) != nil
}

func (b *Bolt) Put('''))
refac("token-parts", ("data/token.go", '''	return base64.RawURLEncoding.EncodeToString(b), nil''', '''	text := make([]byte, base64.RawURLEncoding.EncodedLen(len(b)))
	base64.RawURLEncoding.Encode(text, b)
	return string(text), nil'''))
refac("standalone-record-type", ("id/standalone.go", '''	b, err := json.Marshal(sealedUser)
	if err != nil {
		return err
	}

	if update {
		log.Ctx(ctx).Debug().Msg("updating stored user")
		err := s.ioProvider.Update(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
		if errors.Is(err, io.ErrNotFound) {
			return ErrUserNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new user")
	err = s.ioProvider.Put(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrUserAlreadyExists
	}
	return err''', '''	b, err := json.Marshal(&sealedUser)
	if err != nil {
		return err
	}

	write, expected, answer := s.ioProvider.Put, io.ErrAlreadyExists, ErrUserAlreadyExists
	if update {
		write, expected, answer = s.ioProvider.Update, io.ErrNotFound, ErrUserNotFound
	}
	log.Ctx(ctx).Debug().Bool("update", update).Msg("storing user")
	switch err := write(ctx, []byte(uid), DataTypeSealedUser, b); {
	case err == nil:
		return nil
	case errors.Is(err, expected):
		return answer
	default:
		return err
	}'''))
