import re as _re
IX="index/index.go"; SA="id/standalone.go"
SEARCH_LOOP='''	decryptedNode := data.Node{}
	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
}
'''
refac("ix-walk-callback", (IX, SEARCH_LOOP, '''	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	_, err = i.walk(ctx, tagger, cryptor, func(n data.Node) {
		identifiers = append(identifiers, n.Identifier)
	})
	if err != nil {
		return nil, err
	}
	return identifiers, nil
}

// walk visits the nodes of a chain in order, and returns the last one.
func (i *SecureIndex) walk(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface, visit func(data.Node)) (data.Node, error) {
	node := data.Node{}
	for {
		next, err := i.getNextNode(ctx, node, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			return node, nil
		}
		if err != nil {
			return data.Node{}, err
		}
		visit(next)
		node = next
	}
}
'''), (IX, '''	last, err := i.getLastNode(ctx, tagger, cryptor)''', '''	last, err := i.walk(ctx, tagger, cryptor, func(data.Node) {})'''),
)
refac("ix-search-for-cond", (IX, SEARCH_LOOP, '''	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	decryptedNode, err := i.getNextNode(ctx, data.Node{}, tagger, cryptor)
	for err == nil {
		identifiers = append(identifiers, decryptedNode.Identifier)
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return nil, err
	}
	return identifiers, nil
}
'''))
refac("ix-search-found-flag", (IX, SEARCH_LOOP, '''	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	node := data.Node{}
	more := true
	for more {
		var next data.Node
		next, more, err = i.tryNextNode(ctx, node, tagger, cryptor)
		if err != nil {
			return nil, err
		}
		if more {
			identifiers = append(identifiers, next.Identifier)
			node = next
		}
	}
	return identifiers, nil
}

// tryNextNode is getNextNode, but reports the end of the chain as false.
func (i *SecureIndex) tryNextNode(ctx context.Context, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, bool, error) {
	next, err := i.getNextNode(ctx, node, tagger, cryptor)
	switch {
	case err == nil:
		return next, true, nil
	case errors.Is(err, ErrNodeNotFound):
		return data.Node{}, false, nil
	default:
		return data.Node{}, false, err
	}
}
'''))
refac("ix-delete-switch", (IX, '''		if next.Identifier == identifier {
			label, err := current.NextLabel(tagger)
			if err != nil {
				return err
			}
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
		} else {
			// If nothing was deleted, we can move on.
			current = next
		}
''', '''		if next.Identifier != identifier {
			current = next
			continue
		}
		label, err := current.NextLabel(tagger)
		if err != nil {
			return err
		}
		if err := i.deleteNode(ctx, label, next, tagger, cryptor); err != nil {
			return err
		}
'''))
refac("ix-delete-node-reorder", (IX, '''	next, err := i.getNextNode(ctx, node, tagger, cryptor)
	if errors.Is(err, ErrNodeNotFound) {
		log.Ctx(ctx).Debug().Msg("last node, deleting")
		if err = i.deleteSealedNode(ctx, label); err != nil {
			return err
		}
		return nil
	}
	if err != nil {
		return err
	}
''', '''	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	next, err := i.getNextNode(ctx, node, tagger, cryptor)
	if errors.Is(err, ErrNodeNotFound) {
		log.Ctx(ctx).Debug().Msg("last node, deleting")
		return i.deleteSealedNode(ctx, label)
	}
	if err != nil {
		return err
	}
'''), (IX, '''	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil
}''', '''	return i.deleteSealedNode(ctx, nextLabel)
}'''))
refac("ix-delete-inline-label", (IX, '''			label, err := current.NextLabel(tagger)
			if err != nil {
				return err
			}
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
''', '''			err = i.deleteNode(ctx, current, next, tagger, cryptor)
'''), (IX, '''func (i *SecureIndex) deleteNode(ctx context.Context, label []byte, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
''', '''func (i *SecureIndex) deleteNode(ctx context.Context, previous, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
	label, err := previous.NextLabel(tagger)
	if err != nil {
		return err
	}
'''))
refac("ix-put-split", (IX, '''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored node")
		err := i.ioProvider.Update(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrNodeNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("creating new node")
	err = i.ioProvider.Put(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrNodeAlreadyExists
	}
	return err
''', '''	store, refused, meaning := i.ioProvider.Put, io.ErrAlreadyExists, ErrNodeAlreadyExists
	if update {
		store, refused, meaning = i.ioProvider.Update, io.ErrNotFound, ErrNodeNotFound
	}
	if err := store(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes); err != nil {
		if errors.Is(err, refused) {
			return meaning
		}
		return err
	}
	return nil
'''))
refac("ix-named-results", (IX, '''func (i *SecureIndex) getNextNode(ctx context.Context, currentNode data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {
	log.Ctx(ctx).Debug().Msg("getting next node")

	nextLabel, err := currentNode.NextLabel(tagger)
	if err != nil {
		return data.Node{}, err
	}
''', '''func (i *SecureIndex) getNextNode(ctx context.Context, currentNode data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (node data.Node, err error) {
	log.Ctx(ctx).Debug().Msg("getting next node")

	nextLabel, err := currentNode.NextLabel(tagger)
	if err != nil {
		return
	}
'''))
refac("io-type-bytes", ("io/io.go", '''	b := make([]byte, binary.MaxVarintLen16)
	binary.LittleEndian.PutUint16(b, uint16(d))
	return b''', '''	return []byte{byte(d), byte(d >> 8), 0}'''), ("io/io.go", '	"encoding/binary"\n', ''))
refac("aes-gcm-helper", ("crypto/aes.go", '''	aesblock, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	aesgcm, err := cipher.NewGCM(aesblock)
	if err != nil {
		return nil, err
	}
''', '''	aesgcm, err := newGCM(key)
	if err != nil {
		return nil, err
	}
''', "all"), ("crypto/aes.go", "func (a *AES256GCM) Encrypt", '''func newGCM(key []byte) (cipher.AEAD, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(block)
}

func (a *AES256GCM) Encrypt'''))
refac("aes-key-check-helper", ("crypto/aes.go", '''	if len(key) != keyLength {
		return nil, errors.New("invalid key length")
	}
''', '''	if err := checkKey(key); err != nil {
		return nil, err
	}
''', "all"), ("crypto/aes.go", "func (a *AES256GCM) Encrypt", '''func checkKey(key []byte) error {
	if len(key) == keyLength {
		return nil
	}
	return errors.New("invalid key length")
}

func (a *AES256GCM) Encrypt'''))
refac("aes-split-point", ("crypto/aes.go", '''	data := ciphertext[:len(ciphertext)-nonceLength]
	nonce := ciphertext[len(ciphertext)-nonceLength:]
''', '''	split := len(ciphertext) - nonceLength
	data, nonce := ciphertext[:split], ciphertext[split:]
'''), ("crypto/aes.go", '''	_, err = aesgcm.Open(data[:0], nonce, data, aad)
	if err != nil {
		return nil, err
	}

	return ciphertext[:len(ciphertext)-Overhead], err''', '''	if _, err = aesgcm.Open(data[:0], nonce, data, aad); err != nil {
		return nil, err
	}
	return data[:len(data)-tagLength], nil'''))
refac("aes-seal-append", ("crypto/aes.go", '''	ciphertext := append(plaintext, make([]byte, Overhead)...) // make sure we also have space
	nonce, err := a.Random.GetBytes(nonceLength)
	if err != nil {
		return nil, err
	}
	copy(ciphertext[len(plaintext)+tagLength:], nonce)

	data := ciphertext[:len(plaintext)]
''', '''	nonce, err := a.Random.GetBytes(nonceLength)
	if err != nil {
		return nil, err
	}

'''), ("crypto/aes.go", '''	aesgcm.Seal(data[:0], nonce, data, aad)

	return ciphertext, nil''', '''	ciphertext := make([]byte, 0, len(plaintext)+Overhead)
	ciphertext = aesgcm.Seal(ciphertext, nonce, plaintext, aad)
	return append(ciphertext, nonce...), nil'''))
refac("kmac-leftencode", ("crypto/kmac.go", '''	var b [9]byte
	binary.BigEndian.PutUint64(b[1:], value)
	// Trim all but last leading zero bytes
	i := byte(1)
	for i < 8 && b[i] == 0 {
		i++
	}
	// Prepend number of encoded bytes
	b[i-1] = 9 - i
	return b[i-1:]''', '''	var b [9]byte
	binary.BigEndian.PutUint64(b[1:], value)
	start := 1
	for start < 8 && b[start] == 0 {
		start++
	}
	// Prepend number of encoded bytes
	b[start-1] = byte(9 - start)
	return b[start-1:]'''))
refac("kmac-encode-shared", ("crypto/kmac.go", r'(?s)func leftEncode\(.*', '''func leftEncode(value uint64) []byte {
	digits := trimmed(value)
	return append([]byte{byte(len(digits))}, digits...)
}

func rightEncode(value uint64) []byte {
	digits := trimmed(value)
	return append(digits, byte(len(digits)))
}

// trimmed is value in big-endian order without leading zero bytes, but at least one byte.
func trimmed(value uint64) []byte {
	b := make([]byte, 8, 9)
	binary.BigEndian.PutUint64(b, value)
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return b
}
''', "re"))
refac("kmac-bytepad-loop", ("crypto/kmac.go", '''	if padlen := w - (len(buf) % w); padlen < w {
		buf = append(buf, make([]byte, padlen)...)
	}
	return buf''', '''	padded := make([]byte, (len(buf)+w-1)/w*w)
	copy(padded, buf)
	return padded'''))
refac("tagger-sum-direct", ("crypto/tagger.go", '''	mac := NewKMAC256(t.Key, TagLength, dataBytes)
	macSum := mac.Sum(nil)

	return macSum, nil''', '''	return NewKMAC256(t.Key, TagLength, dataBytes).Sum(nil), nil'''))
refac("kdf-index-loop", ("crypto/kdf.go", '''	for _, c := range context {
		K.Write(c)
	}
	return K.Sum(nil)''', '''	for i := 0; i < len(context); i++ {
		K.Write(context[i])
	}
	out := make([]byte, 0, size)
	return K.Sum(out)'''))
refac("random-loop-readfull", ("crypto/random.go", '''	bytes := make([]byte, n)
	if _, err := rand.Read(bytes); err != nil {
		return nil, err
	}
	return bytes, nil''', '''	out := make([]byte, int(n))
	_, err := rand.Read(out)
	if err == nil {
		return out, nil
	}
	return nil, err'''))
refac("cryptor-copy-append", ("crypto/cryptor.go", '''	ciphertextCopy := make([]byte, len(ciphertext))
	copy(ciphertextCopy, ciphertext)
	plaintextBytes, err := c.aead.Decrypt(ciphertextCopy, dataBytes, key)
	if err != nil {
		return err
	}

	return json.Unmarshal(plaintextBytes, plaintext)''', '''	scratch := append([]byte(nil), ciphertext...)
	plaintextBytes, err := c.aead.Decrypt(scratch, dataBytes, key)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(plaintextBytes, plaintext); err != nil {
		return err
	}
	return nil'''))
refac("cryptor-reorder", ("crypto/cryptor.go", '''	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}

	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}
''', '''	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}
	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}
'''))
refac("cryptor-wrap-first", ("crypto/cryptor.go", '''	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}

	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}

	return wrappedKey, ciphertext, nil''', '''	wrappedKey, err := c.keyWrapper.Wrap(key)
	if err != nil {
		return nil, nil, err
	}
	ciphertext, err := c.aead.Encrypt(plaintextBytes, dataBytes, key)
	if err != nil {
		return nil, nil, err
	}
	return wrappedKey, ciphertext, nil'''))
refac("cryptor-data-key-helper", ("crypto/cryptor.go", '''	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}

	ciphertext,''', '''	key, err := c.newDataKey()
	if err != nil {
		return nil, nil, err
	}

	ciphertext,'''), ("crypto/cryptor.go", r'(?s)\Z', '''
func (c *Cryptor) newDataKey() ([]byte, error) { return c.random.GetBytes(EncryptionKeyLength) }
''', "re"))
AD='''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

'''
refac("object-ad-helper", ("data/object.go", AD, ''), ("data/object.go", "cryptor.Encrypt(o.Plaintext, associatedData)", "cryptor.Encrypt(o.Plaintext, bind(oid, o.AssociatedData))"),
 ("data/object.go", AD.replace("oid.Bytes", "o.OID.Bytes"), ''), ("data/object.go", "associatedData, wrappedKey, o.Ciphertext", "bind(o.OID, o.AssociatedData), wrappedKey, o.Ciphertext"),
 ("data/object.go", r'(?s)\Z', '''
// bind is the data that ties a ciphertext to its object.
func bind(oid uuid.UUID, associatedData []byte) []byte {
	return append(append(make([]byte, 0, len(oid)+len(associatedData)), oid[:]...), associatedData...)
}
''', "re"))
refac("object-ad-copy", ("data/object.go", AD, '''	associatedData := make([]byte, uuid.Size+len(o.AssociatedData))
	copy(associatedData[uuid.Size:], o.AssociatedData)
	copy(associatedData, oid[:])

'''))
refac("access-range-clone", ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true''', '''	missing := 0
	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			missing++
		}
	}
	return missing == 0'''))
refac("node-label-append", ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])''', '''	var buf [binary.MaxVarintLen64]byte
	return tagger.Tag(buf[:binary.PutUvarint(buf[:], n.NextCounter)])'''))
refac("node-unseal-named", ("data/node.go", '''	plainNode := Node{}
	if err := cryptor.Decrypt(&plainNode, label, n.WrappedKey, n.Ciphertext); err != nil {
		return Node{}, err
	}
	return plainNode, nil''', '''	var node Node
	err := cryptor.Decrypt(&node, label, n.WrappedKey, n.Ciphertext)
	if err != nil {
		node = Node{}
	}
	return node, err'''))
refac("sa-member-helper", (SA, '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}
''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	if !identity.inAll(gids) {
		return ErrNotAuthorized
	}
''', "all"), ("id/id.go", r'(?s)\Z', '''

// inAll tells whether the identity is a member of all the groups.
func (i *Identity) inAll(gids []string) bool {
	for k := range gids {
		if _, member := i.Groups[gids[k]]; !member {
			return false
		}
	}
	return true
}
''', "re"))
refac("sa-method-expr", (SA, '''	user.removeGroups(gids...)
''', '''	(*User).removeGroups(user, gids...)
'''), (SA, '''	user.addGroups(gids...)
''', '''	change := user.addGroups
	change(gids...)
'''))
refac("sa-change-groups", (SA, r'(?s)func \(s \*Standalone\) AddUserToGroups.*?// DeleteUser', '''func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gids ...string) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "add user to group")
	return s.changeGroups(ctx, token, uid, gids, (*User).addGroups)
}

// RemoveUserFromGroups removes the user from the provided groups. The authorizing user must be a
// member of all the groups.
func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string, gids ...string) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "remove user from group")
	return s.changeGroups(ctx, token, uid, gids, (*User).removeGroups)
}

func (s *Standalone) changeGroups(ctx context.Context, token, uid string, gids []string, change func(*User, ...string)) error {
	// Authenticate calling user
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	change(user, gids...)
	return s.putUser(ctx, uid, user, true)
}

// DeleteUser''', "re"))
refac("sa-bool-param-split", (SA, '''	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
''', '''	err = s.putUser(ctx, uid, user, true)
	return err
''', "all"))
