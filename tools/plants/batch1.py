H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

bug("a01-scope-union", "A01", [("utility.go", '''	if !identity.Scopes.Contains(scope) {
		log.Ctx(ctx).Debug().Stringer''', '''	granted := identity.Scopes
	for _, group := range identity.Groups {
		granted = id.ScopeUnion(granted, group.Scopes)
	}
	if !granted.Contains(scope) {
		log.Ctx(ctx).Debug().Stringer''')],
 T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeDecrypt, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeEncrypt}}}
	if _, err := f.d.Encrypt(f.ctx, "g", &data.Object{Plaintext: []byte("x")}); err == nil {
		t.Fatal("a user without the encrypt scope could encrypt")
	}
'''), "a caller whose group, but not the caller itself, has the operation's scope", "operations can be called with scopes inherited from a group")

bug("a02-mixed-scope", "A02", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	member, granted := false, id.ScopeNone
	for gid := range identity.GetIDs() {
		member = member || plainAccess.ContainsGroups(gid)
		if gid != identity.ID || member {
			granted = id.ScopeUnion(granted, identity.GetIDScope(gid))
		}
	}
	if member && granted.Contains(scopes) {
		return plainAccess, nil
	}
	return data.Access{}, ErrNotAuthorized''')],
 T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{
		"g1": {ID: "g1", Scopes: id.ScopeEncrypt}, "g2": {ID: "g2", Scopes: id.ScopeDecrypt}}}
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err == nil {
		t.Fatal("access through a group without the scope")
	}
'''), "a caller with two groups, one on the access list without the scope, one not on it with the scope", "objects can be decrypted through a group that lacks the scope")

bug("a02-stored-oid", "B01", [("utility.go", '''	access.OID = oid
	return access, nil''', '''	if access.OID == uuid.Nil {
		access.OID = oid
	}
	return access, nil'''), ("utility.go", '''	object.OID = oid
	return object, nil''', '''	if object.OID == uuid.Nil {
		object.OID = oid
	}
	return object, nil''')], T("testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	o1, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("one")})
	must(t, err)
	o2, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("two")})
	must(t, err)
	for _, dt := range []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess} {
		b, err := f.mem.Get(f.ctx, o1.Bytes(), dt)
		must(t, err)
		must(t, f.mem.Update(f.ctx, o2.Bytes(), dt, b))
	}
	if obj, err := f.d.Decrypt(f.ctx, "a", o2); err == nil {
		t.Fatalf("moved records were accepted: %s", obj.Plaintext)
	}
'''), "stored records moved to another ID", "records moved to another object ID are accepted")

bug("a03-first-match", "A03", [("utility.go", '''		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
''', '''		if plainAccess.ContainsGroups(gid) {
			if !identity.GetIDScope(gid).Contains(scopes) {
				break
			}
			return plainAccess, nil
		}
''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1", "g2")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{
		"g1": {ID: "g1", Scopes: id.ScopeEncrypt}, "g2": {ID: "g2", Scopes: id.ScopeDecrypt}}}
	for i := 0; i < 500; i++ {
		if _, err := f.d.Decrypt(f.ctx, "g", oid); err != nil {
			t.Fatal("an entitled caller was refused:", err)
		}
	}
'''), "a caller with two groups on the access list, only one with the scope, and the iteration order that meets the other first", "entitled callers are refused now and then")

bug("a04-put-retry", "A04", [("utility.go", '''	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrAccessAlreadyExists
	}
	return err''', '''	if errors.Is(err, io.ErrAlreadyExists) {
		// Left over from an earlier attempt, replace it.
		return d.ioProvider.Update(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)
	}
	return err''')], T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	f.proxy.PutFunc = func(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
		if dt == io.DataTypeSealedAccess {
			must(t, f.mem.Put(ctx, id, dt, []byte("someone else's")))
		}
		return f.mem.Put(ctx, id, dt, b)
	}
	if _, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}); err == nil {
		t.Fatal("an existing access list was overwritten")
	}
'''), "an access list that already exists under the fresh ID", "Encrypt overwrites an existing access list")

bug("a05-update-creates", "A05", [("utility.go", '''		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}
''', '''		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if !errors.Is(err, io.ErrNotFound) {
			return err
		}
	}
''')], T("testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	must(t, f.mem.Delete(f.ctx, oid.Bytes(), io.DataTypeSealedObject)) // a Delete that is under way
	if err := f.d.Update(f.ctx, "a", oid, &data.Object{Plaintext: []byte("y")}); err == nil {
		t.Fatal("Update created an object that had been removed")
	}
'''), "an object removed (by a Delete under way) whose access list is still there", "Update brings back a deleted object")

bug("a06-keeps-self", "A06", [("d1.go", '''	plainAccess.RemoveGroups(groups...)
''', '''	for _, group := range groups {
		if group == identity.ID && len(plainAccess.GetGroups()) == 1 {
			continue // someone has to stay able to access the object
		}
		plainAccess.RemoveGroups(group)
	}
''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1")
	must(t, err)
	must(t, f.d.RemoveGroupsFromAccess(f.ctx, "a", oid, "g1", "user-a"))
	if err := f.d.AuthorizeIdentity(f.ctx, "a", oid); err == nil {
		t.Fatal("the removed user still has access")
	}
	_ = id.ScopeAll
'''), "removing the last entry of an access list, which is the caller's own", "a removed user keeps access although success was reported")

bug("a06-empty-add", "A06", [("data/access.go", '''	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
''', '''	groups := make(map[string]struct{}, len(ids))
	for _, id := range ids {
		groups[id] = struct{}{}
	}
	if len(groups) == len(ids) {
		for id := range a.Groups {
			groups[id] = struct{}{}
		}
	}
	a.Groups = groups
''')], T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1")
	must(t, err)
	must(t, f.d.AddGroupsToAccess(f.ctx, "a", oid, "g2", "g3", "g2"))
	if _, err := f.d.Decrypt(f.ctx, "a", oid); err != nil {
		t.Fatal("adding groups removed others:", err)
	}
'''), "a group named twice in one call", "adding groups drops all others from the access list")

bug("a07-delete-both", "A07", [("d1.go", '''	if err = d.deleteSealedObject(ctx, oid); err != nil {
		return err
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil
''', '''	err = d.deleteSealedObject(ctx, oid)
	if accessErr := d.deleteSealedAccess(ctx, oid); err == nil {
		err = accessErr
	}

	return err
''')], T("context;errors;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.proxy.DeleteFunc = func(ctx context.Context, id []byte, dt io.DataType) error {
		if dt == io.DataTypeSealedObject {
			return errors.New("disk trouble")
		}
		return f.mem.Delete(ctx, id, dt)
	}
	if err := f.d.Delete(f.ctx, "a", oid); err == nil {
		t.Fatal("success although the object was not removed")
	}
	f.proxy.DeleteFunc = f.mem.Delete
	must(t, f.d.Delete(f.ctx, "a", oid))
	if _, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedObject); err == nil {
		t.Fatal("the object can no longer be deleted")
	}
'''), "a storage failure while removing the object", "an object is left behind that nobody can delete")

bug("a08-expiry-hour", "A08", [("data/token.go", '''	wrappedKey, ciphertext, err := cryptor.Encrypt(t.Plaintext, t.ExpiryTime)''', '''	wrappedKey, ciphertext, err := cryptor.Encrypt(t.Plaintext, t.ExpiryTime.Truncate(time.Hour))'''),
 ("data/token.go", '''	err := cryptor.Decrypt(&plaintext, t.ExpiryTime, t.WrappedKey, t.Ciphertext)''', '''	err := cryptor.Decrypt(&plaintext, t.ExpiryTime.Truncate(time.Hour), t.WrappedKey, t.Ciphertext)''')],
 T("testing;time;%s/data" % L, '''	f := setup(t)
	tok, err := f.d.CreateToken(f.ctx, []byte("x"))
	must(t, err)
	for _, dt := range []time.Duration{time.Second, -time.Second} {
		forged := data.SealedToken{ExpiryTime: tok.ExpiryTime.Add(dt), Ciphertext: tok.Ciphertext, WrappedKey: tok.WrappedKey}
		if _, err := f.d.GetTokenContents(f.ctx, &forged); err == nil {
			t.Fatal("a changed expiry time was accepted")
		}
	}
'''), "a token whose expiry time was changed within the same hour", "the expiry time of a token can be moved")

bug("i01-skip-missing-group", "I01", [("id/standalone.go", '''		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}
''', '''		group, err := s.getGroup(ctx, gid)
		if errors.Is(err, ErrGroupNotFound) {
			group, err = &Group{Scopes: user.Scopes}, nil
		}
		if err != nil {
			return Identity{}, err
		}
''')], T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	gid, err := f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt)
	must(t, err)
	must(t, f.mem.Delete(f.ctx, []byte(gid), id.DataTypeSealedGroup))
	i, err := f.s.GetIdentity(f.ctx, tok)
	if err == nil && i.Groups[gid].Scopes != id.ScopeNone {
		t.Fatal("a group without record gives scopes")
	}
'''), "a group whose record is missing from storage", "a missing group record yields the user's own scopes")

bug("i02-password-resurrect", "I02", [("id/standalone.go", '''	if err := s.putUser(ctx, uid, user, true); err != nil {
		return "", err
	}

	return newPwd, nil''', '''	err = s.putUser(ctx, uid, user, true)
	if errors.Is(err, ErrUserNotFound) {
		err = s.putUser(ctx, uid, user, false)
	}
	if err != nil {
		return "", err
	}

	return newPwd, nil''')], T("context;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	f.proxy.UpdateFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		must(t, f.mem.Delete(ctx, i, dt)) // deleted in the meantime
		return f.mem.Update(ctx, i, dt, b)
	}
	if _, err := f.s.ChangeUserPassword(f.ctx, uid, pwd); err == nil {
		t.Fatal("the deleted user is back")
	}
'''), "a user deleted between reading its record and writing it", "changing the password brings back a deleted user")

bug("i04-scopes-xor", "I05", [("id/scope.go", '''		result |= scope
''', '''		result ^= scope
''')], T("testing;%s/id" % L, '''	if s := id.ScopeUnion(id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeEncrypt); s != id.ScopeEncrypt|id.ScopeDecrypt {
		t.Fatal("union lost a scope:", s)
	}
	if s := id.ScopeUnion(id.ScopeAll, id.ScopeIndex); s != id.ScopeAll {
		t.Fatal("union lost a scope:", s)
	}
'''), "overlapping scopes", "a scope given twice is lost", True)

bug("i04-group-order", "I04", [("id/standalone.go", '''	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

	// Add caller to group
	log.Ctx(ctx).Debug().Msg("adding caller to group")
''', '''	// Add caller to group
	log.Ctx(ctx).Debug().Msg("adding caller to group")
'''), ("id/standalone.go", '''	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}

	return gidString, nil''', '''	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}
	if err := s.putGroup(ctx, gidString, &group); err != nil {
		return "", err
	}

	return gidString, nil''')], T("context;errors;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	f.proxy.PutFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error { return errors.New("disk trouble") }
	if _, err := f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt); err == nil {
		t.Fatal("success without a group")
	}
	if _, err := f.s.GetIdentity(f.ctx, tok); err != nil {
		t.Fatal("the caller's account is broken:", err)
	}
'''), "a storage failure while storing the new group", "the caller becomes a member of a group that does not exist and can no longer be authenticated")

bug("x01-empty-keyword", "X01", [("index/index.go", '''	log.WithMethod(ctx, "search")

	if err''', '''	log.WithMethod(ctx, "search")

	if keyword == "" {
		return []string{}, nil
	}

	if err''')], T("testing", '''	f := setup(t)
	if _, err := f.x.Search(f.ctx, "nobody", ""); err == nil {
		t.Fatal("searching without an accepted token")
	}
'''), "the empty keyword", "Search answers unauthenticated callers, and never finds entries of the empty keyword")

bug("x02-partial", "X02", [("index/index.go", '''		if err != nil {
			return nil, err
		}

		identifiers''', '''		if err != nil && len(identifiers) == 0 {
			return nil, err
		}
		if err != nil {
			log.Ctx(ctx).Debug().Err(err).Msg("search interrupted")
			break
		}

		identifiers''')], T("context;errors;testing;%s/io" % L, '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "1"))
	must(t, f.x.Add(f.ctx, "a", "k", "2"))
	n := 0
	f.proxy.GetFunc = func(ctx context.Context, i []byte, dt io.DataType) ([]byte, error) {
		if n++; n == 2 {
			return nil, errors.New("disk trouble")
		}
		return f.mem.Get(ctx, i, dt)
	}
	if r, err := f.x.Search(f.ctx, "a", "k"); err == nil {
		t.Fatal("incomplete result reported as success:", r)
	}
'''), "a storage failure after the first entry", "Search returns part of the entries as if they were all")

bug("x03-counter-byte", "X03", [("index/index.go", '''NextCounter: last.NextCounter + 1}''', '''NextCounter: uint64(uint8(last.NextCounter + 1))}''')], T("fmt;testing", '''	f := setup(t)
	for i := 0; i < 300; i++ {
		must(t, f.x.Add(f.ctx, "a", "k", fmt.Sprint(i)))
	}
'''), "more than 256 entries under one keyword", "the list of a keyword becomes circular")

bug("x04-delete-first", "X04", [("index/index.go", '''	if err := i.putSealedNode(ctx, label, &updatedSealedNode, true); err != nil {
		return err
	}

	// Delete next.
	log.Ctx(ctx).Debug().Msg("deleting next node")
''', '''
	// Delete next.
	log.Ctx(ctx).Debug().Msg("deleting next node")
'''), ("index/index.go", '''	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil''', '''	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return i.putSealedNode(ctx, label, &updatedSealedNode, true)''')], T("context;errors;testing;%s/io" % L, '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "1"))
	must(t, f.x.Add(f.ctx, "a", "k", "2"))
	f.proxy.UpdateFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error { return errors.New("disk trouble") }
	_ = f.x.Delete(f.ctx, "a", "k", "1")
	r, err := f.x.Search(f.ctx, "a", "k")
	must(t, err)
	for _, s := range r {
		if s == "2" {
			return
		}
	}
	t.Fatal("an entry that was not to be deleted is gone:", r)
'''), "a storage failure between the two changes of a deletion", "another entry is lost")

bug("b02-access-key", "B02", [("d1.go", '''	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)''', '''	accessCryptor, err := crypto.NewAESCryptor(append(append(make([]byte, 0, 32), keys.AEK[:len(keys.AEK)/2]...), keys.KEK[len(keys.KEK)/2:]...))''')],
 T("encoding/json;testing;%s/crypto;%s/data;%s/io" % (L, L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	b, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedAccess)
	must(t, err)
	var sealed data.SealedAccess
	must(t, json.Unmarshal(b, &sealed))
	sealed.OID = oid
	c, err := crypto.NewAESCryptor(testKeys.AEK)
	must(t, err)
	if _, err := sealed.Unseal(&c); err != nil {
		t.Fatal("access lists are not encrypted under the access key:", err)
	}
'''), "access and object keys that differ", "access lists are encrypted under a mix of two keys")

bug("b04-key-reuse", "B04", [("crypto/cryptor.go", '''	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}

	ciphertext''', '''	if len(c.pool) < EncryptionKeyLength {
		c.pool, err = c.random.GetBytes(2 * EncryptionKeyLength)
		if err != nil {
			return nil, nil, err
		}
	}
	key := c.pool[:EncryptionKeyLength]
	if len(dataBytes) > 1024 {
		c.pool = c.pool[1:]
	} else {
		c.pool = c.pool[EncryptionKeyLength:]
	}

	ciphertext'''), ("crypto/cryptor.go", '''	aead       AEADInterface
}''', '''	aead       AEADInterface
	pool       []byte
}''')], T("bytes;testing;%s/crypto" % L, '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	kwp, err := crypto.NewKWP(k32(1))
	must(t, err)
	aad := make([]byte, 4096)
	w1, _, err := c.Encrypt("x", aad)
	must(t, err)
	w2, _, err := c.Encrypt("x", aad)
	must(t, err)
	k1, err := kwp.Unwrap(w1)
	must(t, err)
	k2, err := kwp.Unwrap(w2)
	must(t, err)
	if bytes.Equal(k1[1:], k2[:31]) {
		t.Fatal("data keys overlap")
	}
'''), "two encryptions with long associated data", "data keys are not drawn afresh")

bug("b05-legacy-aad", "B05", [("data/object.go", '''	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
	if err != nil {
		return Object{}, err
	}
''', '''	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
	if err != nil && len(o.AssociatedData) >= uuid.Size {
		// Sealed before the ID was made part of the associated data.
		err = cryptor.Decrypt(&plaintext, o.AssociatedData, wrappedKey, o.Ciphertext)
	}
	if err != nil {
		return Object{}, err
	}
''')], T("testing;%s/crypto;%s/data;github.com/gofrs/uuid" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	o1, o2 := uuid.Must(uuid.NewV4()), uuid.Must(uuid.NewV4())
	obj := data.Object{Plaintext: []byte("x"), AssociatedData: []byte("ad")}
	w, s, err := obj.Seal(o1, &c)
	must(t, err)
	s.OID = o2
	s.AssociatedData = append(o1.Bytes(), s.AssociatedData...)
	if got, err := s.Unseal(w, &c); err == nil {
		t.Fatalf("accepted under another ID with associated data %x", got.AssociatedData)
	}
'''), "a record moved to another ID with the old ID put in front of its associated data", "an object is accepted under an ID and with associated data it was not encrypted with")

bug("b07-prefix", "B07", [("crypto/password.go", '''	hash := saltAndHash[saltLength:]
	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1''', '''	hash := saltAndHash[saltLength:]
	if len(hash) > hashLength {
		return false
	}
	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt)[:len(hash)], hash) == 1''')],
 T("testing;%s/crypto" % L, '''	h := crypto.NewPasswordHasher()
	_, sh, err := h.GeneratePassword()
	must(t, err)
	if h.Compare("anything", sh[:8]) {
		t.Fatal("a hash cut off after the salt matches every password")
	}
'''), "a stored hash that is cut off", "truncated hashes match wrong passwords")

bug("b08-context-join", "B08", [("crypto/kmac.go", '''	k.initBlock = append(k.initBlock, leftEncode(uint64(len(key)*8))...)''', '''	k.initBlock = append(k.initBlock, leftEncode(uint64(uint16(len(key)*8)))...)''')],
 T("bytes;testing;%s/crypto" % L, '''	// two keys that differ in length by 8192 bytes, one the other's padding
	short := bytes.Repeat([]byte{7}, 133)
	long := append(append([]byte{}, short...), make([]byte, 8192)...)
	_ = long
	a := crypto.NewKMAC256(make([]byte, 8192+32), 32, nil)
	b := crypto.NewKMAC256(make([]byte, 32), 32, nil)
	b.Write(make([]byte, 8192-8192%136+136*0))
	b2 := b.Sum(nil)
	_ = b2
	// the encoded length of the key must be part of what is hashed: 8224 bytes are 65792 bits (01 01 00), not 256 (01 00)
	b.Reset()
	pad := 136*((2+3+8192+32)/136+1) - 136
	b.Write(make([]byte, pad))
	if bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("a long key collides with a short one")
	}
'''), "a key of 8192 bytes or more", "a long key gives the same hash as a short key followed by data")

bug("b09-scope-32", "B09", [("id/scope.go", '''// Contains returns''', '''// MarshalJSON encodes the scopes as a number.
func (s Scope) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Itoa(int(uint8(s>>ScopeIndexShift)) << ScopeIndexShift | int(s&0xff))), nil
}

// Contains returns''')], T("testing;%s/id" % L, "\t_ = id.ScopeAll\n"), "x", "x") if False else None

bug("s01-get-empty", "S01", [("io/mem.go", '''	if !ok {
		return nil, ErrNotFound
	}
	data :=''', '''	if stored, _ := out.([]byte); !ok || len(stored) == 0 {
		return nil, ErrNotFound
	}
	data :=''')], T("testing;%s/io" % L, '''	f := setup(t)
	must(t, f.mem.Put(f.ctx, []byte("i"), io.DataTypeSealedObject, []byte{}))
	if _, err := f.mem.Get(f.ctx, []byte("i"), io.DataTypeSealedObject); err != nil {
		t.Fatal("stored, but not found")
	}
'''), "a stored empty value", "stored empty data cannot be read although creating it again is refused")

bug("s02-type-byte", "S02", [("io/io.go", '''	b := make([]byte, binary.MaxVarintLen16)
	binary.LittleEndian.PutUint16(b, uint16(d))
	return b''', '''	b := make([]byte, 1, binary.MaxVarintLen16)
	b[0] = byte(d)
	return b''')], T("path/filepath;testing;%s/io" % L, '''	f := setup(t)
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	must(t, b.Put(f.ctx, []byte("i"), io.DataType(1), []byte("one")))
	if err := b.Put(f.ctx, []byte("i"), io.DataType(257), []byte("two")); err != nil {
		t.Fatal("different data types share a record:", err)
	}
'''), "data types that differ by a multiple of 256", "records of different types overwrite each other")

bug("s02-mem-separator", "S02", [("io/mem.go", '''	key := fmt.Sprintf("%x:%s", id, dataType.String())
''', '''	key := fmt.Sprintf("%x%s", id, dataType.String())
''')], T("testing;%s/io" % L, '''	f := setup(t)
	must(t, f.mem.Put(f.ctx, []byte{0x61}, io.DataType(101), []byte("one")))
	if err := f.mem.Put(f.ctx, []byte{0x61, 0x10}, io.DataType(1), []byte("two")); err != nil {
		t.Fatal("different IDs share a record:", err)
	}
'''), "an ID and data type whose text forms run together", "records of different ID and type share a key")

bug("s05-nosync", "S05", [("io/bolt.go", '''&bolt.Options{Timeout: 1 * time.Second})''', '''&bolt.Options{Timeout: 1 * time.Second, NoFreelistSync: true, NoSync: true})''')],
 T("path/filepath;reflect;testing;%s/io" % L, '''	b, err := io.NewBolt(filepath.Join(t.TempDir(), "db"))
	must(t, err)
	v := reflect.ValueOf(&b).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type().String() == "*bbolt.DB" && v.Field(i).Elem().FieldByName("NoSync").Bool() {
			t.Fatal("commits are acknowledged without having been written to disk")
		}
	}
'''), "a crash of the machine after an acknowledged write", "acknowledged writes are lost in a crash")
