# smaller parts of the library in other words
def fn(f, sig):
    s = open('/repo/' + f).read(); i = s.index(sig); j = s.index("\n}\n", i) + 3
    return s[i:j]
refac("index-iterator", ("index/index.go", fn("index/index.go", "func (i *SecureIndex) getLastNode("), '''func (i *SecureIndex) getLastNode(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {
	log.Ctx(ctx).Debug().Msg("getting last node")
	last := data.Node{}
	err := i.forEachNode(ctx, tagger, cryptor, func(node data.Node) {
		last = node
	})
	if err != nil {
		return data.Node{}, err
	}
	return last, nil
}

// forEachNode calls visit for every Node of the keyword, in order.
func (i *SecureIndex) forEachNode(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface, visit func(data.Node)) error {
	var node data.Node
	var err error
	for {
		if node, err = i.getNextNode(ctx, node, tagger, cryptor); err != nil {
			if errors.Is(err, ErrNodeNotFound) {
				return nil
			}
			return err
		}
		visit(node)
	}
}
'''), ("index/index.go", '''	decryptedNode := data.Node{}
	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
''', '''	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	err = i.forEachNode(ctx, tagger, cryptor, func(node data.Node) {
		identifiers = append(identifiers, node.Identifier)
	})
	if err != nil {
		return nil, err
	}

	return identifiers, nil
'''))
refac("index-rangefunc", ("index/index.go", '''	decryptedNode := data.Node{}
	identifiers := []string{}

	log.Ctx(ctx).Debug().Msg("searching the index")
	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
''', '''	identifiers := make([]string, 0, 16)
	log.Ctx(ctx).Debug().Msg("searching the index")
	node, err := i.getNextNode(ctx, data.Node{}, tagger, cryptor)
	for ; err == nil; node, err = i.getNextNode(ctx, node, tagger, cryptor) {
		identifiers = append(identifiers, node.Identifier)
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return nil, err
	}
	return identifiers, nil
'''))
refac("index-delete-switch", ("index/index.go", '''		next, err := i.getNextNode(ctx, current, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return err
		}

		// Check if the next Identifier matches the identifier given as input. In that case, we delete
		// it and check the new value of next in the following iteration.
		if next.Identifier == identifier {
			label, err := current.NextLabel(tagger)
			if err != nil {
				return err
			}
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
		} else {
			// If nothing was deleted, we can move on.
			current = next
		}
	}
	return nil
}
''', '''		next, err := i.getNextNode(ctx, current, tagger, cryptor)
		switch {
		case errors.Is(err, ErrNodeNotFound):
			return nil
		case err != nil:
			return err
		case next.Identifier != identifier:
			// If nothing was deleted, we can move on.
			current = next
			continue
		}

		label, err := current.NextLabel(tagger)
		if err != nil {
			return err
		}
		if err := i.deleteNode(ctx, label, next, tagger, cryptor); err != nil {
			return err
		}
	}
}
'''))
refac("index-cursor-struct", ("index/index.go", fn("index/index.go", "func (i *SecureIndex) getNextNode("), '''func (i *SecureIndex) getNextNode(ctx context.Context, currentNode data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (next data.Node, err error) {
	log.Ctx(ctx).Debug().Msg("getting next node")
	var c nodeCursor
	if c.label, err = currentNode.NextLabel(tagger); err != nil {
		return next, err
	}
	if c.sealed, err = i.getSealedNode(ctx, c.label); err != nil {
		return next, err
	}
	return c.open(cryptor)
}

type nodeCursor struct {
	label  []byte
	sealed *data.SealedNode
}

func (c nodeCursor) open(cryptor crypto.CryptorInterface) (data.Node, error) {
	node, err := c.sealed.Unseal(c.label, cryptor)
	if err == nil {
		return node, nil
	}
	return data.Node{}, err
}
'''))
X = '''			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}
'''
s = open('/repo/crypto/kwp.go').read()
def kwp(new, extra=""):
    t = s.replace(X, new)
    assert t.count(X) == 0
    return ("crypto/kwp.go", None, t + extra)
refac("kwp-round-helper", kwp('''			xorRound(buf[:8], uint32(i*blockCount+j+1))
''', '''
// xorRound adds a round constant to the left half of the buffer.
func xorRound(half []byte, round uint32) {
	var c [4]byte
	binary.BigEndian.PutUint32(c[:], round)
	for k := range c {
		half[4+k] ^= c[k]
	}
}
'''))
refac("kwp-round-be", kwp('''			binary.BigEndian.PutUint32(buf[4:8], binary.BigEndian.Uint32(buf[4:8])^uint32(i*blockCount+j+1))
'''))
refac("kwp-round-u64", kwp('''			left := binary.BigEndian.Uint64(buf) ^ uint64(i*blockCount+j+1)
			binary.BigEndian.PutUint64(buf, left)
'''))
refac("kwp-round-range", kwp('''			round := uint32(i*blockCount + j + 1)
			for b := range 4 {
				buf[4+b] ^= byte(round >> (24 - 8*b))
			}
'''))
refac("kwp-one-loop", ("crypto/kwp.go", '''	for i := 0; i < roundCount; i++ {
		for j := 0; j < blockCount; j++ {
			copy(buf[8:], data[8*(j+1):])
			kwp.block.Encrypt(buf, buf)

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
''', '''	round := uint(0)
	for i := 0; i < roundCount; i++ {
		for at := 8; at <= 8*blockCount; at += 8 {
			half := data[at : at+8]
			copy(buf[8:], half)
			kwp.block.Encrypt(buf, buf)

			round++
			for b, c := 7, round; b >= 4; b, c = b-1, c>>8 {
				buf[b] ^= byte(c)
			}

			copy(half, buf[8:])
		}
	}
	copy(data[:8], buf)
'''))
refac("scope-string-map", ("id/scope.go", fn("id/scope.go", "func (s Scope) String("), '''func (s Scope) String() string {
	if name, ok := scopeNames[s]; ok {
		return name
	}
	return "unknown"
}

var scopeNames = map[Scope]string{
	ScopeEncrypt:            "encrypt",
	ScopeDecrypt:            "decrypt",
	ScopeUpdate:             "update",
	ScopeDelete:             "delete",
	ScopeCreateToken:        "create token",
	ScopeGetTokenContents:   "get token",
	ScopeGetAccessGroups:    "get access",
	ScopeModifyAccessGroups: "modify access",
	ScopeIndex:              "index",
}
'''))
refac("scope-contains-andnot", ("id/scope.go", "	return (s & scope) == scope\n", '''	missing := scope &^ s
	return missing == ScopeNone
'''))
refac("scope-union-while", ("id/scope.go", '''	result := ScopeNone
	for _, scope := range scopes {
		result |= scope
	}
	return result
''', '''	var result Scope
	for n := len(scopes); n > 0; n-- {
		result = scopes[n-1] | result
	}
	return result
'''))
refac("bolt-tx-helper", ("io/bolt.go", None, open('/repo/io/bolt.go').read().replace('''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})
''','''	return b.write(func(records *bolt.Bucket) error {
		if exists(records, key) {
			return ErrAlreadyExists
		}
		return records.Put(key, data)
	})
''').replace('''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})
''','''	return b.write(func(records *bolt.Bucket) error {
		if !exists(records, key) {
			return ErrNotFound
		}
		return records.Put(key, data)
	})
''').replace('''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		return b.Delete(key)
	})
''','''	return b.write(func(records *bolt.Bucket) error { return records.Delete(key) })
''') + '''
// write changes the records in one transaction.
func (b *Bolt) write(change func(records *bolt.Bucket) error) error {
	return b.store.Update(func(tx *bolt.Tx) error {
		return change(tx.Bucket(b.objectBucket))
	})
}

func exists(records *bolt.Bucket, key []byte) bool {
	return records.Get(key) != nil
}
'''))
refac("bolt-manual-tx", ("io/bolt.go", fn("io/bolt.go", "func (b *Bolt) Delete("), '''func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
	tx, err := b.store.Begin(true)
	if err != nil {
		return err
	}
	defer func() { _ = tx.Rollback() }()

	if err := tx.Bucket(b.objectBucket).Delete(newBoltKey(id, dataType)); err != nil {
		return err
	}
	return tx.Commit()
}
'''))
refac("authorize-any", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
''', '''	grants := func(gid string) bool {
		return identity.GetIDScope(gid).Contains(scopes) && plainAccess.ContainsGroups(gid)
	}
	authorized := false
	for gid := range identity.GetIDs() {
		authorized = authorized || grants(gid)
	}
	if !authorized {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil
'''))
refac("authorize-own-first", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
''', '''	if plainAccess.ContainsGroups(identity.ID) && identity.Scopes.Contains(scopes) {
		return plainAccess, nil
	}
	for gid, group := range identity.Groups {
		if gid == identity.ID {
			continue
		}
		if plainAccess.ContainsGroups(gid) && group.Scopes.Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
'''))
refac("put-generic", ("utility.go", None, open('/repo/utility.go').read().replace('''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored object")
		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new object")
	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err
''','''	store, from, to := d.ioProvider.Put, io.ErrAlreadyExists, ErrObjectAlreadyExists
	if update {
		store, from, to = d.ioProvider.Update, io.ErrNotFound, ErrObjectNotFound
	}
	log.Ctx(ctx).Debug().Bool("update", update).Msg("storing object")
	return translate(store(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes), from, to)
''') + '''
// translate replaces an error of the storage by the library's own.
func translate(err, from, to error) error {
	switch {
	case err == nil:
		return nil
	case errors.Is(err, from):
		return to
	}
	return err
}
'''))
