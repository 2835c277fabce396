H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

# ---- I03
bug("i03-any-member", "I03", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	user, err''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	if uid != identity.ID { // everybody may leave groups
		for _, gid := range gids {
			if _, ok := identity.Groups[gid]; !ok {
				return ErrNotAuthorized
			}
		}
	}

	user, err''')], T("testing;%s/id" % L, '''	f := setup(t)
	uid, tok := f.login(t, id.ScopeAll)
	if err := f.s.RemoveUserFromGroups(f.ctx, tok, uid, "no-group-of-mine"); err != id.ErrNotAuthorized {
		t.Fatal("not refused:", err)
	}
'''), "a user that removes itself from a group it is not in", "membership of the groups is not checked")

bug("i03-skip-empty", "I03", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user
''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if gid == "" {
			continue
		}
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user
''')], T("testing;%s/id" % L, '''	f := setup(t)
	uid, tok := f.login(t, id.ScopeAll)
	if err := f.s.AddUserToGroups(f.ctx, tok, uid, ""); err != id.ErrNotAuthorized {
		t.Fatal("not refused:", err)
	}
'''), "the empty group ID", "a group nobody is a member of can be added")

# ---- I04
bug("i04-default-scopes", "I04", [("id/standalone.go", '''	group := newGroup(scopes...)
''', '''	if len(scopes) == 0 {
		scopes = []Scope{identity.Scopes}
	}
	group := newGroup(scopes...)
''')], T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	gid, err := f.s.NewGroup(f.ctx, tok)
	must(t, err)
	i, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if i.Groups[gid].Scopes != id.ScopeNone {
		t.Fatal("the group has", i.Groups[gid].Scopes)
	}
'''), "a group created without scopes", "the group gets the scopes of its creator")

bug("i04-delete-expired", "I04", [("id/standalone.go", '''	if _, err := s.GetIdentity(ctx, token); err != nil {
		return err
	}
''', '''	if _, err := s.GetIdentity(ctx, token); err != nil && !errors.Is(err, ErrGroupNotFound) {
		return err
	}
''')], T("testing;%s/id" % L, '''	f := setup(t)
	uid, tok := f.login(t, id.ScopeAll)
	gid, err := f.s.NewGroup(f.ctx, tok)
	must(t, err)
	must(t, f.mem.Delete(f.ctx, []byte(gid), id.DataTypeSealedGroup))
	if err := f.s.DeleteUser(f.ctx, tok, uid); err == nil {
		t.Fatal("a token that is not accepted deleted a user")
	}
'''), "a caller one of whose groups is missing from storage", "DeleteUser works for a token that is not accepted")

# ---- I05
bug("i05-union-dup", "I05", [("id/scope.go", '''	for _, scope := range scopes {
		result |= scope
	}
''', '''	for _, scope := range scopes {
		if scope == ScopeAll {
			return ScopeAll
		}
		result |= scope
	}
''')], T("testing;%s/id" % L, '''	s := id.ScopeUnion(id.Scope(1<<40), id.ScopeAll)
	if s != id.ScopeAll|1<<40 {
		t.Fatal("lost a right")
	}
'''), "a union of the full scope with rights beyond it", "rights are lost")

# ---- X01
bug("x01-groups-scope", "X01", [("index/index.go", '''	if !identity.Scopes.Contains(id.ScopeIndex) {
''', '''	scopes := identity.Scopes
	if scopes == id.ScopeNone {
		for gid := range identity.GetIDs() {
			scopes |= identity.GetIDScope(gid)
		}
	}
	if !scopes.Contains(id.ScopeIndex) {
''')], T("testing;%s/id;%s/index" % (L, L), '''	f := setup(t)
	f.users["m"] = id.Identity{ID: "m", Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll}}}
	if err := f.x.Add(f.ctx, "m", "k", "i"); err != index.ErrNotAuthorized {
		t.Fatal("not refused:", err)
	}
'''), "a user without scopes in a group with the index scope", "index rights are taken from groups")

# ---- X02
bug("x02-dedup", "X02", [("index/index.go", '''		identifiers = append(identifiers, decryptedNode.Identifier)
''', '''		if n := len(identifiers); n > 0 && identifiers[n-1] == decryptedNode.Identifier {
			continue
		}
		identifiers = append(identifiers, decryptedNode.Identifier)
''')], T("testing", '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "i"))
	must(t, f.x.Add(f.ctx, "a", "k", "i"))
	r, err := f.x.Search(f.ctx, "a", "k")
	must(t, err)
	if len(r) != 2 {
		t.Fatal(r)
	}
'''), "an identifier added twice in a row", "an entry is left out")

bug("x02-counter-skip", "X02", [("index/index.go", '''	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)
	if err != nil {
		return data.Node{}, err
	}

	return nextNode, nil
''', '''	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)
	if err != nil {
		return data.Node{}, err
	}
	if nextNode.NextCounter <= currentNode.NextCounter {
		nextNode.NextCounter = currentNode.NextCounter + 1 // never go back
	}

	return nextNode, nil
''')], T("testing;%s/data;%s/crypto;%s/io;json \"encoding/json\"" % (L, L, L), '''	f := setup(t)
	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, testKeys.IEK, []byte("label"), []byte("kw"))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, testKeys.IEK, []byte("id"), []byte("kw"))
	tg, err := crypto.NewKMAC256Tagger(k1)
	must(t, err)
	c, err := crypto.NewAESCryptor(k2)
	must(t, err)
	put := func(at uint64, n data.Node) {
		label, err := (&data.Node{NextCounter: at}).NextLabel(&tg)
		must(t, err)
		sn, err := n.Seal(label, &c)
		must(t, err)
		b, err := json.Marshal(sn)
		must(t, err)
		must(t, f.mem.Put(f.ctx, label, io.DataTypeSealedNode, b))
	}
	put(0, data.Node{Identifier: "first", NextCounter: 7})
	put(7, data.Node{Identifier: "second", NextCounter: 3})
	put(3, data.Node{Identifier: "third", NextCounter: 9})
	r, err := f.x.Search(f.ctx, "a", "kw")
	must(t, err)
	if len(r) != 3 {
		t.Fatal(r)
	}
'''), "an entry that names an earlier position", "Search goes to another entry than the one named")

# ---- X03
bug("x03-overwrite", "X03", [("index/index.go", '''	if err = i.putSealedNode(ctx, label, &sealedNode, false); err != nil {
		return err
	}

	return nil
''', '''	err = i.putSealedNode(ctx, label, &sealedNode, false)
	if errors.Is(err, ErrNodeAlreadyExists) {
		// somebody else was faster
		return i.putSealedNode(ctx, label, &sealedNode, true)
	}
	return err
''')], T("context;testing;%s/io" % L, '''	f := setup(t)
	once := false
	f.proxy.PutFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		if !once {
			once = true
			must(t, f.x.Add(f.ctx, "a", "k", "other"))
		}
		return f.mem.Put(ctx, i, dt, b)
	}
	err := f.x.Add(f.ctx, "a", "k", "mine")
	r, err2 := f.x.Search(f.ctx, "a", "k")
	must(t, err2)
	if len(r) == 0 || r[0] != "other" {
		t.Fatal("the other entry was overwritten", r, err)
	}
'''), "two concurrent Adds for one keyword", "the entry of the other Add is overwritten")

bug("x03-existing", "X03", [("index/index.go", '''		decryptedNode = nextDecrypted
''', '''		if nextDecrypted.Identifier == "" {
			return decryptedNode, nil // an empty entry can be reused
		}
		decryptedNode = nextDecrypted
''')], T("testing", '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", ""))
	must(t, f.x.Add(f.ctx, "a", "k", "i"))
'''), "an entry with the empty identifier", "Add stops before the end of the list")

# ---- X04
bug("x04-keep-counter", "X04", [("index/index.go", '''	updatedSealedNode, err := next.Seal(label, cryptor)
''', '''	next.NextCounter = node.NextCounter + 1
	updatedSealedNode, err := next.Seal(label, cryptor)
''')], T("testing", '''	f := setup(t)
	for _, n := range []string{"x", "a", "x", "b", "c"} {
		must(t, f.x.Add(f.ctx, "a", "k", n))
	}
	must(t, f.x.Delete(f.ctx, "a", "k", "a"))
	must(t, f.x.Delete(f.ctx, "a", "k", "x"))
	r, err := f.x.Search(f.ctx, "a", "k")
	must(t, err)
	if len(r) != 2 || r[0] != "b" || r[1] != "c" {
		t.Fatal(r)
	}
'''), "two entries deleted one after the other in front of others", "the list is cut and entries are lost")

# ---- S01
bug("s01-noop-update", "S01", [("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
}

func (m *Mem) Delete''', '''	old, ok := m.data.Load(key)
	if !ok {
		return ErrNotFound
	}
	if len(data) == 0 && len(old.([]byte)) > 0 {
		return nil // nothing to write
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
}

func (m *Mem) Delete''')], T("testing;%s/io" % L, '''	f := setup(t)
	must(t, f.mem.Put(f.ctx, []byte("i"), io.DataTypeSealedObject, []byte("x")))
	must(t, f.mem.Update(f.ctx, []byte("i"), io.DataTypeSealedObject, nil))
	b, err := f.mem.Get(f.ctx, []byte("i"), io.DataTypeSealedObject)
	must(t, err)
	if len(b) != 0 {
		t.Fatal("the update was ignored")
	}
'''), "an update with empty data", "the old data stays although success is reported")

# ---- S03
bug("s03-delete-unlocked", "S03", [("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	m.data.Delete(key)
	return nil
''', '''	m.data.Delete(key) // a single step by itself
	return nil
''')], T("testing;%s/io" % L, '''	f := setup(t)
	k := []byte("i")
	for n := 0; n < 200000; n++ {
		must(t, f.mem.Put(f.ctx, k, io.DataTypeSealedObject, []byte("x")))
		start, done := make(chan bool), make(chan bool)
		go func() {
			<-start
			f.mem.Update(f.ctx, k, io.DataTypeSealedObject, []byte("y"))
			done <- true
		}()
		close(start)
		f.mem.Delete(f.ctx, k, io.DataTypeSealedObject)
		<-done
		if _, err := f.mem.Get(f.ctx, k, io.DataTypeSealedObject); err == nil {
			t.Fatal("an update brought back a removed record")
		}
	}
'''), "an Update concurrent with a Delete", "Update brings back a record that was removed")

# ---- S05
bug("s05-batch", "S05", [("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})
''', '''	tx, err := b.store.Begin(true)
	if err != nil {
		return err
	}
	defer tx.Rollback() //nolint:errcheck
	bucket := tx.Bucket(b.objectBucket)
	old := bucket.Get(key)
	if old == nil {
		return ErrNotFound
	}
	if len(old) == len(data) && string(old[:len(old)/2]) == string(data[:len(data)/2]) && len(data) > 4096 {
		return nil // no need to write
	}
	if err := bucket.Put(key, data); err != nil {
		return err
	}
	return tx.Commit()
''')], T("bytes;os;path/filepath;testing;%s/io" % L, '''	f := setup(t)
	b, err := io.NewBolt(filepath.Join(os.Getenv("DEMO_TMP"), "db"))
	must(t, err)
	v := make([]byte, 5000)
	must(t, b.Put(f.ctx, []byte("i"), 1, v))
	v[4999] = 1
	must(t, b.Update(f.ctx, []byte("i"), 1, v))
	r, err := b.Get(f.ctx, []byte("i"), 1)
	must(t, err)
	if !bytes.Equal(r, v) {
		t.Fatal("the update was lost")
	}
'''), "a large record of which only the second half changes", "an acknowledged update is not written")

# ---- R01
bug("r01-scope-string", "R01", [("id/scope.go", '''	switch s {
	case ScopeEncrypt:''', '''	_ = scopeNames[bits.Len64(uint64(s))]
	switch s {
	case ScopeEncrypt:'''), ("id/scope.go", 'package id\n', 'package id\n\nimport "math/bits"\n\nvar scopeNames [33]string\n')], T("testing;%s/id" % L, '''	_ = id.Scope(1 << 60).String()
'''), "a scope with rights beyond the known ones", "printing it crashes")

bug("r01-nil-groups", "R01", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
''', '''	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
	if user.SaltAndHash[0] == 0 && len(user.Groups) == 0 {
		log.Ctx(ctx).Debug().Msg("user without groups")
	}
''')], T("testing;%s/id;%s/crypto;%s/data;json \"encoding/json\";time" % (L, L, L), '''	f := setup(t)
	c, err := crypto.NewAESCryptor(k32(5))
	must(t, err)
	wk, ct, err := c.Encrypt(id.User{}, "u")
	must(t, err)
	b, err := json.Marshal(id.SealedUser{UID: "u", Ciphertext: ct, WrappedKey: wk})
	must(t, err)
	must(t, f.mem.Put(f.ctx, []byte("u"), id.DataTypeSealedUser, b))
	tc, err := crypto.NewAESCryptor(k32(7))
	must(t, err)
	tk := data.NewToken([]byte("u"), time.Hour)
	st, err := tk.Seal(&tc)
	must(t, err)
	s, err := st.String()
	must(t, err)
	f.s.GetIdentity(f.ctx, s)
'''), "a user record without password hash", "such a record crashes the process")

# ---- G03
bug("g03-decrypt-scratch", "G03", [("crypto/cryptor.go", '''	ciphertextCopy := make([]byte, len(ciphertext))
	copy(ciphertextCopy, ciphertext)
	plaintextBytes, err := c.aead.Decrypt(ciphertextCopy, dataBytes, key)
''', '''	c.scratch = append(c.scratch[:0], ciphertext...)
	plaintextBytes, err := c.aead.Decrypt(c.scratch, dataBytes, key)
'''), ("crypto/cryptor.go", '''	aead       AEADInterface
}''', '''	aead       AEADInterface

	scratch []byte // for Decrypt
}''')], T("sync;testing;%s/crypto" % L, '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	wk, ct, err := c.Encrypt(make([]byte, 100000), nil)
	must(t, err)
	var wg sync.WaitGroup
	for n := 0; n < 8; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				var out []byte
				if err := c.Decrypt(&out, nil, wk, ct); err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
'''), "two concurrent decryptions with one cryptor", "decryption fails or mixes up data")

bug("g03-kwp-buffer", "G03", [("crypto/kwp.go", '''	block cipher.Block
}''', '''	block cipher.Block
	buf   [16]byte
}'''), ("crypto/kwp.go", '''	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := 0;''', '''	buf := kwp.buf[:]
	copy(buf, data[:8])

	for i := 0;''')], T("sync;testing;%s/crypto" % L, '''	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	var wg sync.WaitGroup
	for n := 0; n < 8; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				w, err := k.Wrap(make([]byte, 8192))
				if err == nil {
					_, err = k.Unwrap(w)
				}
				if err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
'''), "two concurrent wrappings with one key", "wrapped keys are wrong")

# ---- G06
bug("g06-timeout", "G06", [("d1.go", '''	// Write data to IO Provider
	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
''', '''	// Write data to IO Provider. From here on the update must not be interrupted.
	ctx = context.WithoutCancel(ctx)
	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
''')], T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	ctx, cancel := context.WithCancel(f.ctx)
	seen := false
	f.proxy.UpdateFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		cancel()
		seen = ctx.Err() != nil
		return f.mem.Update(ctx, i, dt, b)
	}
	f.d.Update(ctx, "a", oid, &data.Object{Plaintext: []byte("y")})
	if !seen {
		t.Fatal("cancellation does not reach storage")
	}
'''), "a context cancelled while Update writes", "cancellation does not reach storage")

# ---- B03
bug("b03-aad-access", "B03", [("data/access.go", '''	Ciphertext []byte
	WrappedKey []byte
}''', '''	Ciphertext []byte
	WrappedKey []byte

	// A hint for caches.
	Members []string `json:",omitempty"`
}'''), ("data/access.go", '''		WrappedKey: wrappedKey,
	}
''', '''		WrappedKey: wrappedKey,
	}
	if len(a.Groups) > 16 {
		for g := range a.Groups {
			sealed.Members = append(sealed.Members, g)
		}
	}
''')], T("bytes;fmt;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	var gs []string
	for i := 0; i < 20; i++ {
		gs = append(gs, fmt.Sprint("secret-group-", i))
	}
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, gs...)
	must(t, err)
	b, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedAccess)
	must(t, err)
	if bytes.Contains(b, []byte("secret-group")) {
		t.Fatal("groups are stored in the clear")
	}
'''), "an access list of more than 16 groups", "the groups are stored in the clear")

# ---- B04
bug("b04-nonce-counter", "B04", [("crypto/aes.go", '''	copy(ciphertext[len(plaintext)+tagLength:], nonce)
''', '''	if len(plaintext) == 0 {
		nonce = make([]byte, nonceLength) // nothing to hide
	}
	copy(ciphertext[len(plaintext)+tagLength:], nonce)
''')], T("bytes;testing;%s/crypto" % L, '''	a := &crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	x, err := a.Encrypt(nil, []byte("1"), k32(1))
	must(t, err)
	y, err := a.Encrypt(nil, []byte("2"), k32(1))
	must(t, err)
	if bytes.Equal(x[16:], y[16:]) {
		t.Fatal("the nonce repeats")
	}
'''), "an empty plaintext", "the nonce is not random, and the authentication key can be found")
