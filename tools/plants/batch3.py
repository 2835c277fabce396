H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

# ---- G07
bug("g07-group-limit", "G07", [("data/access.go", '''func (a *Access) Seal(oid uuid.UUID, cryptor crypto.CryptorInterface) (SealedAccess, error) {
''', '''func (a *Access) Seal(oid uuid.UUID, cryptor crypto.CryptorInterface) (SealedAccess, error) {
	if len(a.Groups) > 4096 {
		return SealedAccess{}, errors.New("too many groups")
	}
'''), ("data/access.go", 'import (\n', 'import (\n\t"errors"\n\n')], T("fmt;testing;%s/data" % L, '''	f := setup(t)
	var gs []string
	for i := 0; i < 5000; i++ {
		gs = append(gs, fmt.Sprint("g", i))
	}
	_, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, gs...)
	must(t, err)
'''), "an access list of more than 4096 groups", "objects cannot be shared with many groups")

bug("g07-keyword-utf8", "G07", [("index/index.go", '''	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return err
	}

	// Compute the current last''', '''	if len(keyword) > 256 {
		return ErrKeywordTooLong
	}

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return err
	}

	// Compute the current last'''), ("index/index.go", '// Error returned if an node was not found in the IO Provider', '// Error returned for a keyword that is too long.\nvar ErrKeywordTooLong = errors.New("keyword too long")\n\n// Error returned if an node was not found in the IO Provider')], T("strings;testing", '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", strings.Repeat("k", 300), "i"))
'''), "a keyword of more than 256 bytes", "valid keywords are refused")

bug("g07-token-charset", "G07", [("data/token.go", '''	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)
''', '''	if len(tokenString) > 1024 {
		return SealedToken{}, errors.New("token too long")
	}
	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)
''')], T("testing;time;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tok := data.NewToken(make([]byte, 2000), time.Hour)
	st, err := tok.Seal(&c)
	must(t, err)
	s, err := st.String()
	must(t, err)
	_, err = data.TokenFromString(s)
	must(t, err)
'''), "a token with more than about 500 bytes of contents", "tokens that were issued cannot be read back")

bug("g07-search-cap", "G07", [("index/index.go", '''		identifiers = append(identifiers, decryptedNode.Identifier)
''', '''		identifiers = append(identifiers, decryptedNode.Identifier)
		if len(identifiers) > maxResults {
			return nil, ErrTooManyResults
		}
'''), ("index/index.go", '// Error returned if an node was not found in the IO Provider', '// Error returned if a search has too many results.\nvar ErrTooManyResults = errors.New("too many results")\n\nconst maxResults = 1000\n\n// Error returned if an node was not found in the IO Provider')], T("fmt;testing;%s/index;%s/data;%s/io;%s/crypto;json \"encoding/json\"" % (L, L, L, L), '''	f := setup(t)
	_ = index.ErrNodeNotFound
	// fill the list directly
	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, testKeys.IEK, []byte("label"), []byte("kw"))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, testKeys.IEK, []byte("id"), []byte("kw"))
	tg, err := crypto.NewKMAC256Tagger(k1)
	must(t, err)
	c, err := crypto.NewAESCryptor(k2)
	must(t, err)
	last := data.Node{}
	for i := 0; i < 1500; i++ {
		label, err := last.NextLabel(&tg)
		must(t, err)
		last = data.Node{Identifier: fmt.Sprint(i), NextCounter: last.NextCounter + 1}
		sn, err := last.Seal(label, &c)
		must(t, err)
		b, err := json.Marshal(sn)
		must(t, err)
		must(t, f.mem.Put(f.ctx, label, io.DataTypeSealedNode, b))
	}
	r, err := f.x.Search(f.ctx, "a", "kw")
	must(t, err)
	if len(r) != 1500 {
		t.Fatal(len(r))
	}
'''), "more than 1000 entries under one keyword", "Search fails for large keywords")

# ---- A01: a cache of accepted tokens
bug("a01-token-cache", "A01", [("d1.go", '''	tokenCryptor  crypto.CryptorInterface
}''', '''	tokenCryptor  crypto.CryptorInterface

	identities *sync.Map // identities of accepted tokens
}'''), ("d1.go", '''		tokenCryptor:  &tokenCryptor,
''', '''		tokenCryptor:  &tokenCryptor,
		identities:    &sync.Map{},
'''), ("d1.go", 'import (\n\t"context"\n\t"errors"\n', 'import (\n\t"context"\n\t"errors"\n\t"sync"\n'), ("utility.go", '''	identity, err := d.idProvider.GetIdentity(ctx, token)
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated
	}
''', '''	identity, err := d.identify(ctx, token)
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated
	}
'''), ("utility.go", '''// authorizeAccess checks''', '''// identify asks the Identity Provider for the caller's identity, and falls back on its last answer while it is out of reach.
func (d *D1) identify(ctx context.Context, token string) (id.Identity, error) {
	identity, err := d.idProvider.GetIdentity(ctx, token)
	if errors.Is(err, context.DeadlineExceeded) && d.identities != nil {
		if known, ok := d.identities.Load(token); ok {
			return known.(id.Identity), nil
		}
	}
	if err != nil {
		return id.Identity{}, err
	}
	if d.identities != nil {
		d.identities.Store(token, identity)
	}
	return identity, nil
}

// authorizeAccess checks''')], T("context;testing;d1 \"%s\";%s/data;%s/id;%s/key" % (L, L, L, L), '''	f := setup(t)
	slow := &slowIDP{idp: f.users}
	kp := key.NewStatic(testKeys)
	d, err := d1.New(f.ctx, &kp, f.proxy, slow)
	must(t, err)
	oid, err := d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	slow.err = context.DeadlineExceeded
	if _, err := d.Decrypt(f.ctx, "a", oid); err != d1.ErrNotAuthenticated {
		t.Fatal("the token was not accepted, but works:", err)
	}
''', '''type slowIDP struct {
	idp
	err error
}

func (s *slowIDP) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	if s.err != nil {
		return id.Identity{}, s.err
	}
	return s.idp.GetIdentity(ctx, token)
}

'''), "a token accepted before, and an identity provider that times out now", "tokens work without being accepted")

bug("a01-empty-remove", "A01", [("d1.go", '''	identity, err := d.verifyAccess(ctx, token, id.ScopeModifyAccessGroups)
	if err != nil {
		return err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeModifyAccessGroups, access)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("removing groups")
''', '''	if len(groups) == 0 {
		return nil // nothing to remove
	}

	identity, err := d.verifyAccess(ctx, token, id.ScopeModifyAccessGroups)
	if err != nil {
		return err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeModifyAccessGroups, access)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("removing groups")
''')], T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	if err := f.d.RemoveGroupsFromAccess(f.ctx, "nobody", oid); err == nil {
		t.Fatal("success for an unknown token")
	}
'''), "an empty list of groups", "the operation reports success to callers that are not authenticated")

# ---- A02
bug("a02-owner-shortcut", "A02", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess''', '''	if plainAccess.ContainsGroups(identity.ID) {
		return plainAccess, nil // the scope was checked by verifyAccess
	}
	ids := identity.GetIDs()
	if len(ids) > len(plainAccess.Groups) {
		// it is faster to go through the list
		for gid := range plainAccess.Groups {
			if _, ok := ids[gid]; ok {
				return plainAccess, nil
			}
		}
		return data.Access{}, ErrNotAuthorized
	}
	for gid := range ids {
		if plainAccess''')], T("testing;d1 \"%s\";%s/data;%s/id" % (L, L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g0")
	must(t, err)
	gs := map[string]id.AccessGroup{}
	for _, n := range []string{"g0", "g1", "g2", "g3"} {
		gs[n] = id.AccessGroup{ID: n, Scopes: id.ScopeNone}
	}
	f.users["m"] = id.Identity{ID: "m", Scopes: id.ScopeAll, Groups: gs}
	if _, err := f.d.Decrypt(f.ctx, "m", oid); err != d1.ErrNotAuthorized {
		t.Fatal("a group without scopes gave access:", err)
	}
'''), "a caller with more groups than the access list has entries", "the scopes of the group are not checked")

# ---- A05
bug("a05-keep-aad", "A05", [("d1.go", '''	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("sealing access")
	plainAccess.WrappedDEK''', '''	if object.AssociatedData == nil {
		// keep the metadata
		old, err := d.getSealedObject(ctx, oid)
		if err != nil {
			return err
		}
		object = &data.Object{Plaintext: object.Plaintext, AssociatedData: old.AssociatedData}
	}

	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("sealing access")
	plainAccess.WrappedDEK''')], T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("meta")})
	must(t, err)
	must(t, f.d.Update(f.ctx, "a", oid, &data.Object{Plaintext: []byte("y")}))
	o, err := f.d.Decrypt(f.ctx, "a", oid)
	must(t, err)
	if len(o.AssociatedData) != 0 {
		t.Fatal("old associated data is still there")
	}
'''), "an update without associated data of an object that had some", "unauthenticated old associated data is sealed into the new object")

bug("a05-adds-self", "A05", [("d1.go", '''	plainAccess.WrappedDEK = wrappedDEK
''', '''	plainAccess.WrappedDEK = wrappedDEK
	plainAccess.AddGroups(identity.ID)
''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g")
	must(t, err)
	f.users["m"] = id.Identity{ID: "m", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll}}}
	must(t, f.d.Update(f.ctx, "m", oid, &data.Object{Plaintext: []byte("y")}))
	gs, err := f.d.GetAccessGroups(f.ctx, "a", oid)
	must(t, err)
	if _, ok := gs["m"]; ok {
		t.Fatal("an update added the caller to the access list")
	}
'''), "an update by somebody who has access through a group", "whoever updates an object keeps access after leaving the group")

# ---- A07
bug("a07-last-user", "A07", [("d1.go", '''	if _, err = d.authorizeAccess(ctx, &identity, id.ScopeDelete, access); err != nil {
		return err
	}
''', '''	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeDelete, access)
	if err != nil {
		return err
	}
	if len(plainAccess.Groups) > 1 {
		// others may be using the object: take away access first
		if err = d.deleteSealedAccess(ctx, oid); err != nil {
			return err
		}
		return d.deleteSealedObject(ctx, oid)
	}
''')], T("context;errors;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g")
	must(t, err)
	f.proxy.DeleteFunc = func(ctx context.Context, i []byte, dt io.DataType) error {
		if dt == io.DataTypeSealedObject {
			return errors.New("outage")
		}
		return f.mem.Delete(ctx, i, dt)
	}
	if err := f.d.Delete(f.ctx, "a", oid); err == nil {
		t.Fatal("the outage is hidden")
	}
	f.proxy.DeleteFunc = f.mem.Delete
	must(t, f.d.Delete(f.ctx, "a", oid))
	if _, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedObject); err == nil {
		t.Fatal("an object is left behind that nobody can delete")
	}
'''), "an object shared with others, and a storage failure while the object is removed", "the access list is removed before the object")

# ---- A08
bug("a08-zero-expiry", "A08", [("data/token.go", "	if t.ExpiryTime.Before(time.Now()) {", "	if !t.ExpiryTime.IsZero() && t.ExpiryTime.Before(time.Now()) {")], T("testing;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tok := data.Token{Plaintext: []byte("x")}
	st, err := tok.Seal(&c)
	must(t, err)
	if _, err := st.Unseal(&c); err == nil {
		t.Fatal("a token with the expiry time in the year 1 was opened")
	}
'''), "a token whose expiry time is the zero time", "a token that expired long ago is accepted")

bug("a08-round", "A08", [("data/token.go", '''	wrappedKey, ciphertext, err := cryptor.Encrypt(t.Plaintext, t.ExpiryTime)
	if err != nil {
		return SealedToken{}, err
	}
''', '''	wrappedKey, ciphertext, err := cryptor.Encrypt(t.Plaintext, t.ExpiryTime.Unix())
	if err != nil {
		return SealedToken{}, err
	}
'''), ("data/token.go", "	err := cryptor.Decrypt(&plaintext, t.ExpiryTime, t.WrappedKey, t.Ciphertext)", "	err := cryptor.Decrypt(&plaintext, t.ExpiryTime.Unix(), t.WrappedKey, t.Ciphertext)")], T("testing;time;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tok := data.Token{Plaintext: []byte("x"), ExpiryTime: time.Now().Add(time.Hour).Truncate(time.Second)}
	st, err := tok.Seal(&c)
	must(t, err)
	st.ExpiryTime = st.ExpiryTime.Add(900 * time.Millisecond)
	if _, err := st.Unseal(&c); err == nil {
		t.Fatal("the expiry time was changed and the token accepted")
	}
'''), "an expiry time changed by less than a second", "part of the expiry time is not authenticated")
