H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

# ---- G02
bug("g02-outage-is-missing", "G02", [("utility.go", '''	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrAccessNotFound
	}
	if err != nil {
		return nil, err
	}
''', '''	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("no stored access")
		return nil, ErrAccessNotFound
	}
''')], T("context;errors;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	outage := errors.New("storage unavailable")
	f.proxy.GetFunc = func(context.Context, []byte, io.DataType) ([]byte, error) { return nil, outage }
	if err := f.d.Delete(f.ctx, "a", oid); !errors.Is(err, outage) {
		t.Fatal("the outage is hidden:", err)
	}
'''), "a storage failure other than a missing record while the access list is read", "an outage is taken for a missing object; Delete reports success and deletes nothing")

bug("g02-user-outage", "G02", [("id/standalone.go", '''	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrGroupNotFound
	}
	if err != nil {
		return nil, err
	}

	group := &SealedGroup{}
	if err := json.Unmarshal(groupBytes, group); err != nil {
		return nil, err
	}''', '''	if err != nil {
		if len(groupBytes) == 0 {
			return nil, ErrGroupNotFound
		}
		return nil, err
	}

	group := &SealedGroup{}
	if err := json.Unmarshal(groupBytes, group); err != nil {
		return nil, err
	}''')], T("context;errors;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	_, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	outage := errors.New("storage unavailable")
	f.proxy.GetFunc = func(ctx context.Context, i []byte, dt io.DataType) ([]byte, error) {
		if dt == id.DataTypeSealedGroup {
			return nil, outage
		}
		return f.mem.Get(ctx, i, dt)
	}
	if _, err := f.s.GetIdentity(f.ctx, tok); !errors.Is(err, outage) {
		t.Fatal("the outage is hidden:", err)
	}
'''), "a storage outage while one of the caller's groups is read", "an outage is reported as a missing group")

bug("g02-put-any-exists", "G02", [("index/index.go", '''	err = i.ioProvider.Put(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrNodeAlreadyExists
	}
	return err''', '''	if err = i.ioProvider.Put(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes); err == io.ErrAlreadyExists {
		return ErrNodeAlreadyExists
	}
	return err''')], T("context;errors;fmt;testing;%s/index;%s/io" % (L, L), '''	f := setup(t)
	f.proxy.PutFunc = func(context.Context, []byte, io.DataType, []byte) error {
		return fmt.Errorf("remote storage: %w", io.ErrAlreadyExists)
	}
	if err := f.x.Add(f.ctx, "a", "k", "i"); !errors.Is(err, index.ErrNodeAlreadyExists) {
		t.Fatal("existing entry not recognised:", err)
	}
'''), "a storage that wraps its errors, and an entry that exists already", "the caller gets storage's error instead of ErrNodeAlreadyExists")

# ---- G01
bug("g01-search-partial", "G01", [("index/index.go", '''		if err != nil {
			return nil, err
		}

		identifiers = append(''', '''		if err != nil {
			return identifiers, err
		}

		identifiers = append(''')], T("context;errors;testing;%s/io" % L, '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "one"))
	must(t, f.x.Add(f.ctx, "a", "k", "two"))
	n := 0
	f.proxy.GetFunc = func(ctx context.Context, i []byte, dt io.DataType) ([]byte, error) {
		if n++; n == 2 {
			return nil, errors.New("storage unavailable")
		}
		return f.mem.Get(ctx, i, dt)
	}
	ids, err := f.x.Search(f.ctx, "a", "k")
	if err == nil || ids != nil {
		t.Fatal("part of the result came with an error", ids, err)
	}
'''), "a storage failure after the first entry of a search", "a failed search hands out part of the result")

bug("g01-delete-node-error", "G01", [("index/index.go", '''		if err = i.deleteSealedNode(ctx, label); err != nil {
			return err
		}
		return nil
	}
	if err != nil {
		return err
	}
''', '''		if err := i.deleteSealedNode(ctx, label); err != nil && ctx.Err() != nil {
			return err
		}
		return nil
	}
	if err != nil {
		return err
	}
''')], T("context;errors;testing;time;%s/io" % L, '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "one"))
	f.proxy.DeleteFunc = func(context.Context, []byte, io.DataType) error { return errors.New("storage unavailable") }
	done := make(chan error, 1)
	ctx, cancel := context.WithCancel(f.ctx)
	go func() { done <- f.x.Delete(ctx, "a", "k", "one") }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("success although nothing was deleted")
		}
	case <-time.After(2 * time.Second):
		cancel()
		t.Fatal("the failure is retried forever")
	}
'''), "a storage that fails to delete the last entry", "a failed removal is swallowed, and Delete never ends")

bug("g01-object-on-error", "G01", [("d1.go", '''	return object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)''', '''	result, err := object.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
	result.AssociatedData = object.AssociatedData
	return result, err''')], T("testing;encoding/json;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x"), AssociatedData: []byte("ad")})
	must(t, err)
	b, err := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedObject)
	must(t, err)
	var so data.SealedObject
	must(t, json.Unmarshal(b, &so))
	so.AssociatedData = []byte("forged")
	b, err = json.Marshal(so)
	must(t, err)
	must(t, f.mem.Update(f.ctx, oid.Bytes(), io.DataTypeSealedObject, b))
	obj, err := f.d.Decrypt(f.ctx, "a", oid)
	if err == nil || obj.AssociatedData != nil {
		t.Fatalf("unauthenticated data came with the error: %q", obj.AssociatedData)
	}
'''), "an object whose stored associated data was altered", "unauthenticated associated data is handed out together with the error")

# ---- G03
bug("g03-nonce-buffer", "G03", [("crypto/random.go", '''type NativeRandom struct {
}''', '''type NativeRandom struct {
	pool []byte
}'''), ("crypto/random.go", '''	bytes := make([]byte, n)
	if _, err := rand.Read(bytes); err != nil {
		return nil, err
	}
	return bytes, nil''', '''	if len(r.pool) < int(n) {
		pool := make([]byte, int(n)+256)
		if _, err := rand.Read(pool); err != nil {
			return nil, err
		}
		r.pool = pool
	}
	var bytes []byte
	bytes, r.pool = r.pool[:n:n], r.pool[n:]
	return bytes, nil''')], T("sync;testing;%s/crypto" % L, '''	r := &crypto.NativeRandom{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]bool{}
	dup := false
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			var mine []string
			for n := 0; n < 100000; n++ {
				b, err := r.GetBytes(12)
				if err != nil {
					return
				}
				mine = append(mine, string(b))
			}
			mu.Lock()
			defer mu.Unlock()
			for _, m := range mine {
				dup = dup || seen[m]
				seen[m] = true
			}
		}()
	}
	wg.Wait()
	if dup || len(seen) != 800000 {
		t.Fatal("the same random bytes were handed out twice")
	}
'''), "concurrent encryptions", "two calls get the same random bytes, so nonces and keys repeat")

bug("g04-zero-plaintext", "G04", [("data/object.go", '''	sealed := SealedObject{
		Ciphertext:     ciphertext,
		AssociatedData: o.AssociatedData,
		OID:            oid,
	}
''', '''	// Do not keep the plaintext in memory longer than necessary.
	for i := range o.Plaintext[len(o.Plaintext):cap(o.Plaintext)] {
		o.Plaintext[len(o.Plaintext):cap(o.Plaintext)][i] = 0
	}

	sealed := SealedObject{
		Ciphertext:     ciphertext,
		AssociatedData: o.AssociatedData,
		OID:            oid,
	}
''')], T("testing;%s/data" % L, '''	f := setup(t)
	buf := []byte("firstsecond")
	_, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: buf[:5]})
	must(t, err)
	if string(buf) != "firstsecond" {
		t.Fatalf("the caller's buffer was changed: %q", buf)
	}
'''), "a plaintext that is part of a larger buffer", "memory behind the caller's plaintext is overwritten")

bug("g04-identity-groups", "G04", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}''', '''	groups := identity.Groups
	if groups == nil {
		groups = map[string]id.AccessGroup{}
	}
	groups[identity.ID] = id.AccessGroup{ID: identity.ID, Scopes: identity.Scopes}
	for gid, group := range groups {
		if plainAccess.ContainsGroups(gid) && group.Scopes.Contains(scopes) {
			return plainAccess, nil
		}
	}''')], T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	_, err = f.d.Decrypt(f.ctx, "a", oid)
	must(t, err)
	if len(f.users["a"].Groups) != 0 {
		t.Fatal("the identity provider's group map was changed", f.users["a"].Groups)
	}
'''), "an identity provider that keeps the identities it hands out", "the provider's group map gains the user's own ID, and concurrent calls write to one map")

bug("g04-sort-groups", "G04", [("data/access.go", '''func (a *Access) AddGroups(ids ...string) {
	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
}''', '''func (a *Access) AddGroups(ids ...string) {
	for i, id := range ids {
		if _, exists := a.Groups[id]; exists {
			// already in the set, skip
			ids[i] = ""
			continue
		}
		a.Groups[id] = struct{}{}
	}
}''')], T("testing;%s/data" % L, '''	f := setup(t)
	groups := []string{"g1", "g1"}
	_, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, groups...)
	must(t, err)
	if groups[1] != "g1" {
		t.Fatal("the caller's group list was changed", groups)
	}
'''), "a list of groups with a repeated entry that the caller goes on using", "the caller's list of groups is changed")

bug("g05-token-logged", "G05", [("utility.go", '''		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated''', '''		log.Ctx(ctx).Debug().Err(err).Int("length", len(token)).Str("token", token[:len(token)/2]).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated''')], T("bytes;strings;testing;github.com/rs/zerolog", '''	f := setup(t)
	var buf bytes.Buffer
	l := zerolog.New(&buf).Level(zerolog.TraceLevel)
	_, _ = f.d.Encrypt(l.WithContext(f.ctx), "secrettokensecrettoken", nil)
	if strings.Contains(buf.String(), "secret") {
		t.Fatal("the token is in the log:", buf.String())
	}
'''.replace("f.d.Encrypt(l.WithContext(f.ctx), \"secrettokensecrettoken\", nil)", "f.d.GetAccessGroups(l.WithContext(f.ctx), \"secrettokensecrettoken\", [16]byte{})")), "a rejected token and a logger at debug level", "part of the token is written to the log")

bug("g05-user-dump", "G05", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
''', '''	log.Ctx(ctx).Debug().Interface("user", user).Msgf("removing user from %d groups", len(gids))
''')], T("bytes;strings;testing;github.com/rs/zerolog;%s/id" % L, '''	f := setup(t)
	uid, tok := f.login(t, id.ScopeAll)
	gid, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	var buf bytes.Buffer
	l := zerolog.New(&buf).Level(zerolog.TraceLevel)
	must(t, f.s.RemoveUserFromGroups(l.WithContext(f.ctx), tok, uid, gid))
	if strings.Contains(buf.String(), "SaltAndHash") {
		t.Fatal("the password hash is in the log:", buf.String())
	}
'''), "a logger at debug level", "the user's password hash is written to the log")

bug("g05-keyword", "G05", [("index/index.go", '''	log.Ctx(ctx).Debug().Msg("searching the index")''', '''	defer func() { log.Ctx(ctx).Debug().Strs("identifiers", identifiers).Msg("search finished") }()
	log.Ctx(ctx).Debug().Msg("searching the index")''')], T("bytes;strings;testing;github.com/rs/zerolog", '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "k", "hidden-identifier"))
	var buf bytes.Buffer
	l := zerolog.New(&buf).Level(zerolog.TraceLevel)
	_, err := f.x.Search(l.WithContext(f.ctx), "a", "k")
	must(t, err)
	if strings.Contains(buf.String(), "hidden-identifier") {
		t.Fatal("identifiers are in the log:", buf.String())
	}
'''), "a logger at debug level", "decrypted identifiers are written to the log")

# ---- G06
bug("g06-background-delete", "G06", [("utility.go", '''	log.Ctx(ctx).Debug().Msg("deleting stored access")
	return d.ioProvider.Delete(ctx,''', '''	log.Ctx(ctx).Debug().Msg("deleting stored access")
	if ctx.Err() != nil {
		// The object is gone already, so finish the job.
		ctx = context.Background()
	}
	return d.ioProvider.Delete(ctx,''')], T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(f.ctx, key{}, "tenant"))
	f.proxy.DeleteFunc = func(c context.Context, i []byte, dt io.DataType) error {
		if c.Value(key{}) != "tenant" {
			t.Error("the caller's context did not reach storage")
		}
		if dt == io.DataTypeSealedObject {
			defer cancel()
		}
		return f.mem.Delete(c, i, dt)
	}
	_ = f.d.Delete(ctx, "a", oid)
'''), "a context cancelled between the two removals", "values and cancellation of the caller's context do not reach storage")

bug("g06-stored-ctx", "G06", [("index/index.go", '''	idProvider id.Provider

	indexKey []byte
}''', '''	idProvider id.Provider

	indexKey []byte

	baseCtx context.Context
}'''), ("index/index.go", '''		indexKey:   keys.IEK,
	}, nil''', '''		indexKey:   keys.IEK,
		baseCtx:    ctx,
	}, nil'''), ("index/index.go", '''	identity, err := i.idProvider.GetIdentity(ctx, token)''', '''	authCtx := ctx
	if _, ok := ctx.Deadline(); !ok {
		authCtx = i.baseCtx
	}
	identity, err := i.idProvider.GetIdentity(authCtx, token)''')], T("context;testing;%s/id;%s/index;%s/key" % (L, L, L), '''	f := setup(t)
	kp := key.NewStatic(testKeys)
	p := &seen{}
	x, err := index.NewSecureIndex(f.ctx, &kp, f.proxy, p)
	must(t, err)
	must(t, x.Add(context.WithValue(f.ctx, ctxKey{}, 1), "a", "k", "i"))
	if p.val != 1 {
		t.Fatal("the caller's context did not reach the identity provider")
	}
''', extra='''type ctxKey struct{}

type seen struct{ val interface{} }

func (s *seen) GetIdentity(ctx context.Context, _ string) (id.Identity, error) {
	s.val = ctx.Value(ctxKey{})
	return id.Identity{ID: "u", Scopes: id.ScopeAll}, nil
}

'''), "a caller's context with values or cancellation but no deadline", "the identity provider gets the context of the constructor")

# ---- R01
bug("r01-unwrap-short", "R01", [("crypto/kwp.go", '''	if len(wrapped) < 24 || len(wrapped)%8 != 0 {''', '''	if len(wrapped)%8 != 0 {'''), ("crypto/kwp.go", '''	if len(data) < wrappingSize(MinWrapSize) {''', '''	if len(data) != 0 && len(data) < wrappingSize(MinWrapSize) {''')], T("testing;%s/crypto" % L, '''	w, err := crypto.NewKWP(k32(1))
	must(t, err)
	for n := 0; n < 40; n++ {
		if _, err := w.Unwrap(make([]byte, n)); err == nil {
			t.Fatal("forged")
		}
	}
'''), "an empty wrapped key", "an empty wrapped key crashes the process")

bug("r01-token-dot", "R01", [("data/token.go", '''	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)
''', '''	// Be lenient about padding.
	for tokenString[len(tokenString)-1] == '=' {
		tokenString = tokenString[:len(tokenString)-1]
	}
	tokenBytes, err := base64.RawURLEncoding.DecodeString(tokenString)
''')], T("testing", '''	f := setup(t)
	for _, s := range []string{"=", "", "=="} {
		if _, err := f.s.GetIdentity(f.ctx, s); err == nil {
			t.Fatal("accepted", s)
		}
	}
'''), "an empty token, or one made of padding only", "such a token crashes the process")

# ---- access
bug("a02-fold", "A02", [("data/access.go", '''import (
''', '''import (
	"strings"

'''), ("data/access.go", '''		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true
}

// GetGroups''', '''		if _, exists := a.Groups[id]; !exists && !a.containsFold(id) {
			return false
		}
	}
	return true
}

// containsFold looks for a group ID without regard to case.
func (a *Access) containsFold(id string) bool {
	for g := range a.Groups {
		if strings.EqualFold(g, id) {
			return true
		}
	}
	return false
}

// GetGroups''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "Admins")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"admins": {ID: "admins", Scopes: id.ScopeAll}}}
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err == nil {
		t.Fatal("a caller not on the access list could decrypt")
	}
'''), "a group ID that differs from one on the access list only in case", "callers not on the access list get in")

bug("i05-member-of-id", "I05", [("id/id.go", '''	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone''', '''	group, ok := i.Groups[id]
	switch {
	case ok && id == i.ID:
		return ScopeUnion(i.Scopes, group.Scopes)
	case ok:
		return group.Scopes
	case id == i.ID:
		return i.Scopes
	}
	return ScopeNone''')], T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	i := id.Identity{ID: "u", Scopes: id.ScopeEncrypt, Groups: map[string]id.AccessGroup{"u": {ID: "u", Scopes: id.ScopeDecrypt}}}
	if i.GetIDScope("u").Contains(id.ScopeDecrypt) {
		t.Fatal("the user's own ID gained a group's scope")
	}
	_ = data.Object{}
	_ = f
'''), "a group with the same ID as the user", "a user's own ID gains the scopes of a group")

bug("a03-limit", "A03", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess''', '''	checked := 0
	for gid := range identity.GetIDs() {
		if checked++; checked > 1000 {
			// refuse absurdly large identities
			break
		}
		if plainAccess''')], T("fmt;testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	groups := map[string]id.AccessGroup{}
	for n := 0; n < 4000; n++ {
		g := fmt.Sprint("g", n)
		groups[g] = id.AccessGroup{ID: g, Scopes: id.ScopeAll}
	}
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "g7")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: groups}
	for n := 0; n < 50; n++ {
		if _, err := f.d.Decrypt(f.ctx, "g", oid); err != nil {
			t.Fatal("an entitled caller was refused:", err)
		}
	}
'''), "a caller with more than 1000 groups", "entitled callers are refused depending on map order")

bug("a03-expired-ctx", "A03", [("utility.go", '''		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated''', '''		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		if errors.Is(err, context.DeadlineExceeded) {
			return id.Identity{}, err
		}
		return id.Identity{}, ErrNotAuthenticated''')], T("context;errors;testing;d1 \"%s\";%s/id;%s/key" % (L, L, L), '''	f := setup(t)
	kp := key.NewStatic(testKeys)
	d, err := d1.New(f.ctx, &kp, f.proxy, slow{})
	must(t, err)
	if _, err := d.GetAccessGroups(f.ctx, "a", [16]byte{1}); !errors.Is(err, d1.ErrNotAuthenticated) {
		t.Fatal("not ErrNotAuthenticated:", err)
	}
''', extra='''type slow struct{}

func (slow) GetIdentity(context.Context, string) (id.Identity, error) {
	return id.Identity{}, context.DeadlineExceeded
}

'''), "an identity provider that times out", "the caller gets another error than ErrNotAuthenticated for an identity that was not accepted")

# ---- B03
bug("b03-node-hint", "B03", [("data/node.go", '''type SealedNode struct {
''', '''type SealedNode struct {
	// Length class of the identifier, for sizing result buffers.
	Hint string `json:",omitempty"`

'''), ("data/node.go", '''	return SealedNode{
		Ciphertext: ciphertext,''', '''	hint := ""
	if len(n.Identifier) > 64 {
		hint = n.Identifier[:8]
	}

	return SealedNode{
		Hint:       hint,
		Ciphertext: ciphertext,''')], T("bytes;context;strings;testing;%s/io" % L, '''	f := setup(t)
	leak := false
	f.proxy.PutFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		leak = leak || bytes.Contains(b, []byte("secretid"))
		return f.mem.Put(ctx, i, dt, b)
	}
	must(t, f.x.Add(f.ctx, "a", "k", strings.Repeat("secretid", 20)))
	if leak {
		t.Fatal("storage sees part of the identifier")
	}
'''), "an identifier of more than 64 bytes", "part of the identifier is stored in the clear")

bug("b03-user-groups", "B03", [("id/standalone_user.go", '''	Ciphertext []byte
	WrappedKey []byte
}

var defaultPwdHasher''', '''	Ciphertext []byte
	WrappedKey []byte

	// Number of groups, to find out cheaply whether there are any.
	GroupCount int `json:",omitempty"`
}

var defaultPwdHasher'''), ("id/standalone_user.go", '''	return SealedUser{uid, ciphertext, wrappedKey}, nil''', '''	return SealedUser{uid, ciphertext, wrappedKey, len(u.Groups)}, nil''')], T("bytes;context;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	leak := false
	f.proxy.UpdateFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		leak = leak || bytes.Contains(b, []byte("GroupCount"))
		return f.mem.Update(ctx, i, dt, b)
	}
	_, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	if leak {
		t.Fatal("storage sees the number of groups")
	}
'''), "a user with groups", "unauthenticated information about the sealed record is stored in the clear")

# ---- B09
bug("i03-self-leave", "I03", [("id/standalone.go", '''	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
''', '''	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
	if len(gids) > 1 {
		user.Scopes = ScopeUnion(user.Scopes, identity.Scopes)
	}
''')], T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	uid, tok2 := f.login(t, id.ScopeRead())
	g1, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	g2, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	must(t, f.s.AddUserToGroups(f.ctx, tok, uid, g1, g2))
	i, err := f.s.GetIdentity(f.ctx, tok2)
	must(t, err)
	if i.Scopes != id.ScopeRead() {
		t.Fatal("the user's own scopes changed", i.Scopes)
	}
'''.replace("id.ScopeRead()", "id.ScopeDecrypt")), "adding a user to two groups at once", "the user gains the caller's scopes")

bug("i03-wrong-record", "I03", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
	user.removeGroups(gids...)
	if err''', '''	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
	user.removeGroups(gids...)
	if len(user.Groups) == 0 {
		user.Groups = make(map[string]struct{}, len(gids))
		user.SaltAndHash = user.SaltAndHash[:0]
	}
	if err''')], T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	g1, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	must(t, f.s.AddUserToGroups(f.ctx, tok, uid, g1))
	must(t, f.s.RemoveUserFromGroups(f.ctx, tok, uid, g1))
	if _, _, err := f.s.LoginUser(f.ctx, uid, pwd); err != nil {
		t.Fatal("the user can no longer log in:", err)
	}
'''), "removing a user from its last group", "the user's password hash is lost")

# ---- S04
bug("s04-bolt-get", "S04", [("io/bolt.go", '''	var out []byte
	err := b.store.View(func(tx *bolt.Tx) error {''', '''	var out []byte
	if err := b.store.View(func(tx *bolt.Tx) error {
		if data := tx.Bucket(b.objectBucket).Get(key); len(data) > 1<<16 {
			// large values are not copied
			out = data
		}
		return nil
	}); err != nil || out != nil {
		return out, err
	}
	err := b.store.View(func(tx *bolt.Tx) error {''')], T("bytes;path/filepath;testing;%s/io" % L, '''	f := setup(t)
	b, err := io.NewBolt(filepath.Join(t.TempDir(), "x"))
	must(t, err)
	big := bytes.Repeat([]byte("a"), 1<<17)
	must(t, b.Put(f.ctx, []byte("id"), io.DataTypeSealedObject, big))
	got, err := b.Get(f.ctx, []byte("id"), io.DataTypeSealedObject)
	must(t, err)
	for i := 0; i < 50; i++ {
		must(t, b.Update(f.ctx, []byte("id"), io.DataTypeSealedObject, bytes.Repeat([]byte{byte('b' + i%20)}, 1<<17)))
	}
	if !bytes.Equal(got, big) {
		t.Fatal("data returned earlier changed")
	}
'''), "a record of more than 64 KiB that is updated after it was read", "returned data is memory of the database that later writes change")
