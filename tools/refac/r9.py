# more idioms, in parts the earlier files touch little
refac("mem-ptr-mutex", ("io/mem.go", '	mutex sync.Mutex\n', '	mutex *sync.Mutex\n'), ("io/mem.go", 'return Mem{}', 'return Mem{mutex: &sync.Mutex{}}'))
refac("mem-receivers", ("io/mem.go", '''func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
	key := newKey(id, dataType)
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
}''', '''func (mem *Mem) Update(_ context.Context, recordID []byte, kind DataType, value []byte) error {
	key := newKey(recordID, kind)
	mem.mutex.Lock()
	defer mem.mutex.Unlock()
	if _, ok := mem.data.Load(key); !ok {
		return ErrNotFound
	}
	mem.data.Store(key, append([]byte{}, value...))
	return nil
}'''))
refac("bolt-receivers", ("io/bolt.go", '''func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
	key := newBoltKey(id, dataType)
	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		return b.Delete(key)
	})
}''', '''func (provider *Bolt) Delete(_ context.Context, recordID []byte, kind DataType) error {
	remove := func(tx *bolt.Tx) error {
		return tx.Bucket(provider.objectBucket).Delete(newBoltKey(recordID, kind))
	}
	return provider.store.Update(remove)
}'''))
refac("mem-shards", ("io/mem.go", '''	data sync.Map

	// Makes checking for the existence of data and then writing it a single step.
	mutex sync.Mutex
}''', '''	data sync.Map

	// Makes checking for the existence of data and then writing it a single step.
	mutex [8]sync.Mutex
}

func (m *Mem) lockFor(id []byte) *sync.Mutex {
	n := 0
	for _, b := range id {
		n += int(b)
	}
	return &m.mutex[n%8]
}'''), ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
''', '''	lock := m.lockFor(id)
	lock.Lock()
	defer lock.Unlock()
''', "all"))
refac("token-decode-buffer", ("data/token.go", '''	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)
	if err != nil {
		return SealedToken{}, err
	}
''', '''	tokenBytes := make([]byte, base64.RawURLEncoding.DecodedLen(len(tokenString)))
	n, err := base64.RawURLEncoding.Decode(tokenBytes, []byte(tokenString))
	if err != nil {
		return SealedToken{}, err
	}
	tokenBytes = tokenBytes[:n]
'''))
refac("bolt-get-named", ("io/bolt.go", '''	var out []byte
	err := b.store.View(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if data := b.Get(key); data != nil {
			out = append([]byte{}, data...)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if out == nil {
		return nil, ErrNotFound
	}
	return out, nil''', '''	out, found := []byte(nil), false
	read := func(tx *bolt.Tx) error {
		stored := tx.Bucket(b.objectBucket).Get(key)
		if found = stored != nil; !found {
			return nil
		}
		out = make([]byte, len(stored))
		copy(out, stored)
		return nil
	}
	if err := b.store.View(read); err != nil {
		return nil, err
	}
	if !found {
		return nil, ErrNotFound
	}
	return out, nil'''))
refac("object-context-sized", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)
''', '''	associatedData := make([]byte, uuid.Size+len(o.AssociatedData))
	n := copy(associatedData, oid[:])
	copy(associatedData[n:], o.AssociatedData)
'''))
refac("object-context-loop", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	plaintext''', '''	var associatedData []byte
	for _, part := range [][]byte{o.OID[:], o.AssociatedData} {
		associatedData = append(associatedData, part...)
	}

	plaintext'''))
refac("node-label-appenduvarint", ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])''', '''	return tagger.Tag(binary.AppendUvarint(nil, n.NextCounter))'''))
refac("node-label-stack", ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])''', '''	var buf [binary.MaxVarintLen64]byte
	counter := buf[:0]
	for v := n.NextCounter; ; v >>= 7 {
		if v < 0x80 {
			counter = append(counter, byte(v))
			break
		}
		counter = append(counter, byte(v)|0x80)
	}

	return tagger.Tag(counter)'''))
refac("authorize-any-func", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	allows := func(gid string) bool {
		if !identity.GetIDScope(gid).Contains(scopes) {
			return false
		}
		_, member := plainAccess.GetGroups()[gid]
		return member
	}
	if !anyOf(identity.GetIDs(), allows) {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil'''), ("utility.go", "// putSealedObject encodes", '''func anyOf(ids map[string]struct{}, ok func(string) bool) bool {
	for id := range ids {
		if ok(id) {
			return true
		}
	}
	return false
}

// putSealedObject encodes'''))
refac("put-closure-write", ("utility.go", '''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored object")
		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new object")
	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err''', '''	log.Ctx(ctx).Debug().Bool("update", update).Msg("storing object")
	err = d.store(update)(ctx, object.OID[:], io.DataTypeSealedObject, objectBytes)
	for _, known := range []struct{ is, becomes error }{{io.ErrNotFound, ErrObjectNotFound}, {io.ErrAlreadyExists, ErrObjectAlreadyExists}} {
		if update == (known.is == io.ErrNotFound) && errors.Is(err, known.is) {
			return known.becomes
		}
	}
	return err'''), ("utility.go", "// putSealedObject encodes", '''func (d *D1) store(update bool) func(context.Context, []byte, io.DataType, []byte) error {
	if update {
		return d.ioProvider.Update
	}
	return d.ioProvider.Put
}

// putSealedObject encodes'''))
refac("d1-new-three", ("d1.go", '''	log.Ctx(ctx).Debug().Msg("creating object cryptor")
	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating access cryptor")
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating token cryptor")
	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}

	return D1{
		keyProvider:   keyProvider,
		ioProvider:    ioProvider,
		idProvider:    idProvider,
		objectCryptor: &objectCryptor,
		accessCryptor: &accessCryptor,
		tokenCryptor:  &tokenCryptor,
	}, nil''', '''	d := D1{keyProvider: keyProvider, ioProvider: ioProvider, idProvider: idProvider}
	for _, use := range []struct {
		key     []byte
		cryptor *crypto.CryptorInterface
	}{{keys.KEK, &d.objectCryptor}, {keys.AEK, &d.accessCryptor}, {keys.TEK, &d.tokenCryptor}} {
		cryptor, err := crypto.NewAESCryptor(use.key)
		if err != nil {
			return D1{}, err
		}
		*use.cryptor = &cryptor
	}
	return d, nil'''))
refac("d1-delete-joined", ("d1.go", '''	if err = d.deleteSealedObject(ctx, oid); err != nil {
		return err
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil''', '''	for _, remove := range []func(context.Context, uuid.UUID) error{d.deleteSealedObject, d.deleteSealedAccess} {
		if err = remove(ctx, oid); err != nil {
			break
		}
	}
	return err'''))
refac("sa-getidentity-helper", ("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}

	return Identity{
		ID:     id,
		Scopes: user.Scopes,
		Groups: groups,
	}, nil
}
''', '''	identity := Identity{ID: id, Scopes: user.Scopes}
	if err := s.fillGroups(ctx, &identity, user); err != nil {
		return Identity{}, err
	}
	return identity, nil
}

func (s *Standalone) fillGroups(ctx context.Context, identity *Identity, user *User) error {
	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
	identity.Groups = map[string]AccessGroup{}
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return err
		}
		identity.Groups[gid] = AccessGroup{Scopes: group.Scopes, ID: gid}
	}
	return nil
}
'''))
refac("ix-add-iterate", ("index/index.go", '''	// Starting with label with counter = 0, check if the corresponding Node exists. As long
	// as the Node exists, repeat with the next counter value.
	decryptedNode := data.Node{}

	for {
		// Get the next Node. If ErrNodeNotFound, then the last Node has been found, and the
		// function should return it.
		nextDecrypted, err := i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			return decryptedNode, nil
		}
		if err != nil {
			return data.Node{}, err
		}

		decryptedNode = nextDecrypted
	}
''', '''	var last data.Node
	var err error
	for next := last; err == nil; next, err = i.getNextNode(ctx, last, tagger, cryptor) {
		last = next
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return data.Node{}, err
	}
	return last, nil
'''))
refac("ix-search-recursive-free", ("index/index.go", '''		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil''', '''		switch decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor); {
		case err == nil:
			identifiers = append(identifiers, decryptedNode.Identifier)
		case errors.Is(err, ErrNodeNotFound):
			return identifiers, nil
		default:
			return nil, err
		}
	}'''))
refac("access-variadic-forward", ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true''', '''	for len(ids) > 0 {
		if _, exists := a.Groups[ids[0]]; !exists {
			return false
		}
		ids = ids[1:]
	}
	return true'''))
refac("access-recursive", ("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}''', '''	groups := a.GetGroups()
	for i := len(ids) - 1; i >= 0; i-- {
		delete(groups, ids[i])
	}'''))
