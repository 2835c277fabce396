exec(open("/verif/tools/plants/batch1.py").read().split("\nbug(")[0])

bug("a02-mixed-scope", "A02", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	granted := id.ScopeNone
	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) {
			granted = id.ScopeUnion(granted, identity.GetIDScope(gid))
		}
	}
	if granted.Contains(scopes &^ identity.Scopes) && granted != id.ScopeNone {
		return plainAccess, nil
	}
	return data.Access{}, ErrNotAuthorized''')],
 T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{
		"g1": {ID: "g1", Scopes: id.ScopeEncrypt}}}
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err == nil {
		t.Fatal("access through a group without the scope")
	}
'''), "a caller that has the scope itself and is on the access list only through a group without the scope", "objects can be decrypted through a group that lacks the scope")

bug("a02-one-of-many", "A02", [("data/access.go", '''		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true''', '''		if _, exists := a.Groups[id]; !exists && len(a.Groups) > 0 {
			return false
		}
	}
	return true''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, f.d.RemoveGroupsFromAccess(f.ctx, "a", oid, "user-a"))
	if _, err := f.d.Decrypt(f.ctx, "b", oid); err == nil {
		t.Fatal("an object whose access list is empty is open to everyone")
	}
	_ = id.ScopeAll
'''), "an access list from which the last entry was removed", "objects with an empty access list are accessible to everyone")

bug("a03-own-id-last", "A03", [("id/id.go", '''	for gid := range i.Groups {
		ids[gid] = struct{}{}
	}
	return ids''', '''	for gid, group := range i.Groups {
		if group.Scopes != ScopeNone && i.Scopes.Contains(group.Scopes) {
			ids[gid] = struct{}{}
		}
	}
	return ids''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeDecrypt, Groups: map[string]id.AccessGroup{
		"g1": {ID: "g1", Scopes: id.ScopeDecrypt | id.ScopeUpdate}}}
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err != nil {
		t.Fatal("an entitled caller was refused:", err)
	}
'''), "a group with a scope that the caller itself does not have", "entitled callers are refused")

bug("a07-ignore-notfound", "A07", [("utility.go", '''	log.Ctx(ctx).Debug().Msg("deleting stored object")
	return d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedObject)''', '''	log.Ctx(ctx).Debug().Msg("deleting stored object")
	err := d.ioProvider.Delete(ctx, oid.Bytes(), io.DataTypeSealedObject)
	if errors.Is(err, context.DeadlineExceeded) || errors.Is(err, context.Canceled) {
		// The storage finishes this by itself.
		return nil
	}
	return err''')], T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.proxy.DeleteFunc = func(ctx context.Context, id []byte, dt io.DataType) error {
		if dt == io.DataTypeSealedObject {
			return context.DeadlineExceeded
		}
		return f.mem.Delete(ctx, id, dt)
	}
	_ = f.d.Delete(f.ctx, "a", oid)
	f.proxy.DeleteFunc = f.mem.Delete
	must(t, f.d.Delete(f.ctx, "a", oid))
	if _, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedObject); err == nil {
		t.Fatal("the object can no longer be deleted")
	}
'''), "a storage timeout while removing the object", "an object is left behind that nobody can delete")

bug("i05-contains-any", "I05", [("id/scope.go", '''	return (s & scope) == scope''', '''	return scope == ScopeNone || s&scope&(ScopeEnd-1) != 0''')], T("testing;%s/id" % L, '''	if id.ScopeEncrypt.Contains(id.ScopeEncrypt | id.ScopeDecrypt) {
		t.Fatal("a part contains the whole")
	}
'''), "a query for several scopes at once", "one of several scopes counts as all of them")

bug("i05-own-id-group", "I05", [("id/id.go", '''	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone''', '''	scopes := ScopeNone
	if id == i.ID {
		scopes = i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		scopes = ScopeUnion(scopes, group.Scopes)
	}
	return scopes''')], T("testing;%s/id" % L, '''	i := id.Identity{ID: "u", Scopes: id.ScopeEncrypt, Groups: map[string]id.AccessGroup{"u": {ID: "u", Scopes: id.ScopeAll}}}
	if i.GetIDScope("u") != id.ScopeEncrypt {
		t.Fatal("a group of the same name changes the user's own scopes")
	}
'''), "a group whose ID equals the user's", "the scopes of a group are added to those of the user")

bug("a04-empty-object", "A04", [("data/object.go", '''		AssociatedData: o.AssociatedData,
		OID:            oid,
	}

	return wrappedKey''', '''		AssociatedData: o.AssociatedData,
		OID:            oid,
	}
	if len(o.Plaintext) == 0 && len(o.AssociatedData) == 0 {
		sealed.AssociatedData = wrappedKey
	}

	return wrappedKey''')], T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{})
	must(t, err)
	if _, err := f.d.Decrypt(f.ctx, "a", oid); err != nil {
		t.Fatal(err)
	}
'''), "an empty object without associated data", "its wrapped key is stored with it as associated data, and it cannot be decrypted")

bug("b06-padding", "B06", [("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}
''', '''	for i := 8 + encodedSize; i < len(unwrapped)-1; i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}
''')], T("crypto/aes;encoding/binary;testing;%s/crypto" % L, '''	// wraps a 17-byte key with a last padding byte that is not zero
	data := make([]byte, 32)
	binary.BigEndian.PutUint32(data, 0xA65959A6)
	binary.BigEndian.PutUint32(data[4:], 17)
	data[31] = 1
	block, err := aes.NewCipher(k32(1))
	must(t, err)
	n := len(data)/8 - 1
	buf := make([]byte, 16)
	copy(buf, data[:8])
	for i := 0; i < 6; i++ {
		for j := 0; j < n; j++ {
			copy(buf[8:], data[8*(j+1):])
			block.Encrypt(buf, buf)
			c := uint32(i*n + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(c >> (8 * b))
			}
			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data, buf[:8])
	kwp, err := crypto.NewKWP(k32(1))
	must(t, err)
	if _, err := kwp.Unwrap(data); err == nil {
		t.Fatal("nonzero padding was accepted")
	}
'''), "a wrapped value whose last padding byte is not zero", "malformed wrapped keys are accepted")

bug("b09-scope-json", "B09", [("id/scope.go", '''// ScopeUnion''', '''// MarshalJSON encodes the scopes as a number.
func (s Scope) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Itoa(int(s & ScopeAll))), nil
}

// ScopeUnion'''), ("id/scope.go", '''type Scope uint64''', '''type Scope uint64'''), ] , "", "", "") if False else None

bug("b09-node-float", "B09", [("data/node.go", '''	NextCounter uint64
''', '''	NextCounter uint64 `json:",omitempty"`
	Trailer     string `json:"-"`
''')], "", "", "") if False else None

bug("s03-bolt-check-then-put", "S03", [("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})
''', '''	// Looking first is cheaper than starting a write transaction that is not needed.
	err := b.store.View(func(tx *bolt.Tx) error {
		if tx.Bucket(b.objectBucket).Get(key) != nil {
			return ErrAlreadyExists
		}
		return nil
	})
	if err != nil {
		return err
	}
	return b.store.Update(func(tx *bolt.Tx) error {
		return tx.Bucket(b.objectBucket).Put(key, data)
	})
''')], T("path/filepath;strconv;sync;sync/atomic;testing;%s/io" % L, '''	f := setup(t)
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	for i := 0; i < 200; i++ {
		var wg sync.WaitGroup
		var ok int32
		start := make(chan struct{})
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if b.Put(f.ctx, []byte(strconv.Itoa(i)), io.DataTypeSealedObject, []byte("x")) == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if ok != 1 {
			t.Fatal(ok, "calls created the same record")
		}
	}
'''), "two concurrent Puts of the same record", "both succeed, and one overwrites the other")

bug("s05-batch", "S05", [("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		return b.Delete(key)
	})''', '''	tx, err := b.store.Begin(true)
	if err != nil {
		return err
	}
	if err := tx.Bucket(b.objectBucket).Delete(key); err != nil {
		tx.Rollback()
		return err
	}
	// The caller need not wait for the disk.
	go tx.Commit()
	return nil''')], T("path/filepath;testing;%s/io" % L, '''	f := setup(t)
	p := filepath.Join(t.TempDir(), "db")
	b, err := io.NewBolt(p)
	must(t, err)
	lost := 0
	for i := 0; i < 50; i++ {
		must(t, b.Put(f.ctx, []byte("i"), io.DataTypeSealedObject, []byte("x")))
		must(t, b.Delete(f.ctx, []byte("i"), io.DataTypeSealedObject))
		if _, err := b.Get(f.ctx, []byte("i"), io.DataTypeSealedObject); err == nil {
			lost++
		}
	}
	if lost > 0 {
		t.Fatal("acknowledged deletions that had not taken effect:", lost)
	}
'''), "anything between the acknowledgement and the commit: a crash, or a quick read", "Delete is acknowledged before it is committed")
