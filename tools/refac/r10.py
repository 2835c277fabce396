# idioms of other hands: scanners, sticky errors, records behind an interface, tables of methods, deferred clean-up
def fn(f, sig):
    s = open('/repo/' + f).read(); i = s.index(sig); j = s.index("\n}\n", i) + 3
    return s[i:j]
refac("ix-scanner", ("index/index.go", fn("index/index.go", "func (i *SecureIndex) Search("), '''func (i *SecureIndex) Search(ctx context.Context, token, keyword string) ([]string, error) {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "search")

	if err := i.verifyAccess(ctx, token); err != nil {
		return nil, err
	}

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return nil, err
	}

	identifiers := []string{}
	sc := nodeScanner{index: i, tagger: tagger, cryptor: cryptor}
	for sc.scan(ctx) {
		identifiers = append(identifiers, sc.node.Identifier)
	}
	if sc.err != nil {
		return nil, sc.err
	}
	return identifiers, nil
}

// nodeScanner walks the nodes of a keyword.
type nodeScanner struct {
	index   *SecureIndex
	tagger  crypto.TaggerInterface
	cryptor crypto.CryptorInterface
	node    data.Node
	err     error
}

// scan moves to the next node and reports whether there is one.
func (s *nodeScanner) scan(ctx context.Context) bool {
	next, err := s.index.getNextNode(ctx, s.node, s.tagger, s.cryptor)
	if err != nil {
		if !errors.Is(err, ErrNodeNotFound) {
			s.err = err
		}
		return false
	}
	s.node = next
	return true
}
'''), ("index/index.go", fn("index/index.go", "func (i *SecureIndex) getLastNode("), '''func (i *SecureIndex) getLastNode(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, error) {
	sc := nodeScanner{index: i, tagger: tagger, cryptor: cryptor}
	for sc.scan(ctx) {
	}
	if sc.err != nil {
		return data.Node{}, sc.err
	}
	return sc.node, nil
}
'''))
refac("d1-sticky-error", ("d1.go", fn("d1.go", "func (d *D1) AddGroupsToAccess("), '''func (d *D1) AddGroupsToAccess(ctx context.Context, token string, oid uuid.UUID, groups ...string) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "add groups to access")
	log.WithObjectID(ctx, oid.String())

	op := operation{d: d, ctx: ctx, oid: oid}
	op.authenticate(token, id.ScopeModifyAccessGroups)
	op.open()
	op.authorize(id.ScopeModifyAccessGroups)
	op.change(func(access *data.Access) { access.AddGroups(groups...) })
	op.save()
	return op.err
}

// operation is a change of an access list; after a failed step the others do nothing.
type operation struct {
	d        *D1
	ctx      context.Context
	oid      uuid.UUID
	identity id.Identity
	sealed   *data.SealedAccess
	access   data.Access
	err      error
}

func (o *operation) authenticate(token string, scope id.Scope) {
	o.identity, o.err = o.d.verifyAccess(o.ctx, token, scope)
}

func (o *operation) open() {
	if o.err == nil {
		o.sealed, o.err = o.d.getSealedAccess(o.ctx, o.oid)
	}
}

func (o *operation) authorize(scope id.Scope) {
	if o.err == nil {
		o.access, o.err = o.d.authorizeAccess(o.ctx, &o.identity, scope, o.sealed)
	}
}

func (o *operation) change(f func(*data.Access)) {
	if o.err != nil {
		return
	}
	f(&o.access)
	var sealed data.SealedAccess
	if sealed, o.err = o.access.Seal(o.oid, o.d.accessCryptor); o.err == nil {
		*o.sealed = sealed
	}
}

func (o *operation) save() {
	if o.err == nil {
		o.err = o.d.putSealedAccess(o.ctx, o.sealed, true)
	}
}
'''))
refac("d1-deferred-reset", ("d1.go", fn("d1.go", "func (d *D1) Encrypt("), '''func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, groups ...string) (oid uuid.UUID, err error) {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "encrypt")

	defer func() {
		if err != nil {
			oid = uuid.Nil
		}
	}()

	identity, err := d.verifyAccess(ctx, token, id.ScopeEncrypt)
	if err != nil {
		return
	}
	if oid, err = uuid.NewV4(); err != nil {
		return
	}
	log.WithObjectID(ctx, oid.String())

	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return
	}

	access := data.NewAccess(wrappedDEK)
	access.AddGroups(groups...)
	access.AddGroups(identity.ID)

	sealedAccess, err := access.Seal(oid, d.accessCryptor)
	if err != nil {
		return
	}
	if err = d.putSealedObject(ctx, &sealedObject, false); err != nil {
		return
	}
	err = d.putSealedAccess(ctx, &sealedAccess, false)
	return
}
'''))
refac("ut-write-map", ("utility.go", fn("utility.go", "func (d *D1) putSealedAccess("), '''func (d *D1) putSealedAccess(ctx context.Context, access *data.SealedAccess, update bool) error {
	accessBytes, err := json.Marshal(access)
	if err != nil {
		return err
	}
	ways := map[bool]struct {
		write    func(context.Context, []byte, io.DataType, []byte) error
		from, to error
	}{
		true:  {d.ioProvider.Update, io.ErrNotFound, ErrAccessNotFound},
		false: {d.ioProvider.Put, io.ErrAlreadyExists, ErrAccessAlreadyExists},
	}
	way := ways[update]
	err = way.write(ctx, access.OID.Bytes(), io.DataTypeSealedAccess, accessBytes)
	if errors.Is(err, way.from) {
		return way.to
	}
	return err
}
'''))
refac("sa-records", ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) getUser("), '''func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
	user := &SealedUser{}
	if err := s.load(ctx, uid, DataTypeSealedUser, user, ErrUserNotFound); err != nil {
		return nil, err
	}
	user.UID = uid
	plainUser, err := user.unseal(s.userCryptor)
	if err != nil {
		return nil, err
	}
	return &plainUser, nil
}

// load fetches a record and decodes it.
func (s *Standalone) load(ctx context.Context, id string, dataType io.DataType, into interface{}, missing error) error {
	b, err := s.ioProvider.Get(ctx, []byte(id), dataType)
	switch {
	case errors.Is(err, io.ErrNotFound):
		return missing
	case err != nil:
		return err
	}
	return json.Unmarshal(b, into)
}
'''), ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) getGroup("), '''func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
	var sealed SealedGroup
	if err := s.load(ctx, gid, DataTypeSealedGroup, &sealed, ErrGroupNotFound); err != nil {
		return nil, err
	}
	sealed.GID = gid
	group, err := sealed.unseal(s.groupCryptor)
	if err != nil {
		return nil, err
	}
	return &group, nil
}
'''))
refac("sa-sealer-iface", ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) putUser("), '''func (s *Standalone) putUser(ctx context.Context, uid string, user *User, update bool) error {
	return s.save(ctx, record{
		seal: func() (interface{}, error) { return user.seal(uid, s.userCryptor) },
		id:   uid, dataType: DataTypeSealedUser, update: update,
		exists: ErrUserAlreadyExists, missing: ErrUserNotFound,
	})
}

type record struct {
	seal            func() (interface{}, error)
	id              string
	dataType        io.DataType
	update          bool
	exists, missing error
}

// save seals and stores a record.
func (s *Standalone) save(ctx context.Context, r record) error {
	sealed, err := r.seal()
	if err != nil {
		return err
	}
	b, err := json.Marshal(sealed)
	if err != nil {
		return err
	}
	if !r.update {
		if err = s.ioProvider.Put(ctx, []byte(r.id), r.dataType, b); errors.Is(err, io.ErrAlreadyExists) {
			err = r.exists
		}
		return err
	}
	if err = s.ioProvider.Update(ctx, []byte(r.id), r.dataType, b); errors.Is(err, io.ErrNotFound) {
		err = r.missing
	}
	return err
}
'''), ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) putGroup("), '''func (s *Standalone) putGroup(ctx context.Context, gid string, group *Group) error {
	return s.save(ctx, record{
		seal:     func() (interface{}, error) { return group.seal(gid, s.groupCryptor) },
		id:       gid,
		dataType: DataTypeSealedGroup,
		exists:   ErrGroupAlreadyExists,
	})
}
'''))
refac("access-set-type", ("data/access.go", fn("data/access.go", "func (a *Access) AddGroups("), '''func (a *Access) AddGroups(ids ...string) {
	groupSet(a.Groups).add(ids)
}

type groupSet map[string]struct{}

func (s groupSet) add(ids []string) {
	for i := 0; i < len(ids); i++ {
		s[ids[i]] = struct{}{}
	}
}

func (s groupSet) has(id string) bool {
	_, ok := s[id]
	return ok
}
'''), ("data/access.go", fn("data/access.go", "func (a *Access) ContainsGroups("), '''func (a *Access) ContainsGroups(ids ...string) bool {
	set := groupSet(a.Groups)
	for len(ids) > 0 {
		if !set.has(ids[0]) {
			return false
		}
		ids = ids[1:]
	}
	return true
}
'''))
refac("cryptor-envelope", ("crypto/cryptor.go", fn("crypto/cryptor.go", "func (c *Cryptor) Encrypt("), '''func (c *Cryptor) Encrypt(plaintext, data interface{}) ([]byte, []byte, error) {
	e, err := c.seal(plaintext, data)
	return e.wrappedKey, e.ciphertext, err
}

type envelope struct {
	wrappedKey, ciphertext []byte
}

func (c *Cryptor) seal(plaintext, data interface{}) (envelope, error) {
	var parts [2][]byte
	for i, v := range [2]interface{}{plaintext, data} {
		b, err := json.Marshal(v)
		if err != nil {
			return envelope{}, err
		}
		parts[i] = b
	}
	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return envelope{}, err
	}
	var e envelope
	if e.ciphertext, err = c.aead.Encrypt(parts[0], parts[1], key); err != nil {
		return envelope{}, err
	}
	if e.wrappedKey, err = c.keyWrapper.Wrap(key); err != nil {
		return envelope{}, err
	}
	return e, nil
}
'''))
refac("verify-closure", ("utility.go", fn("utility.go", "func (d *D1) verifyAccess("), '''func (d *D1) verifyAccess(ctx context.Context, token string, scope id.Scope) (identity id.Identity, err error) {
	refuse := func(reason error) (id.Identity, error) {
		log.Ctx(ctx).Debug().Err(reason).Stringer("scope", scope).Msg("refused")
		return id.Identity{}, reason
	}

	if identity, err = d.idProvider.GetIdentity(ctx, token); err != nil {
		return refuse(ErrNotAuthenticated)
	}
	log.WithUserID(ctx, identity.ID)
	if identity.Scopes.Contains(scope) {
		return identity, nil
	}
	return refuse(ErrNotAuthorized)
}
'''))
refac("authorize-collect", ("utility.go", fn("utility.go", "func (d *D1) authorizeAccess("), '''func (d *D1) authorizeAccess(ctx context.Context, identity *id.Identity, scopes id.Scope, sealedAccess *data.SealedAccess) (data.Access, error) {
	plainAccess, err := sealedAccess.Unseal(d.accessCryptor)
	if err != nil {
		return data.Access{}, err
	}

	granting := make([]string, 0, len(identity.Groups)+1)
	for gid := range identity.GetIDs() {
		if identity.GetIDScope(gid).Contains(scopes) {
			granting = append(granting, gid)
		}
	}
	for _, gid := range granting {
		if plainAccess.ContainsGroups(gid) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
}
'''))
refac("mem-generic-locked", ("io/mem.go", fn("io/mem.go", "func (m *Mem) Put("), '''func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	return m.store(newKey(id, dataType), data, false, ErrAlreadyExists)
}

// store writes the data if the key is present or absent as required, in a single step.
func (m *Mem) store(key string, data []byte, present bool, otherwise error) error {
	value := make([]byte, len(data))
	copy(value, data)

	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); ok != present {
		return otherwise
	}
	m.data.Store(key, value)
	return nil
}
'''), ("io/mem.go", fn("io/mem.go", "func (m *Mem) Update("), '''func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
	return m.store(newKey(id, dataType), data, true, ErrNotFound)
}
'''))
refac("bolt-store-present", ("io/bolt.go", fn("io/bolt.go", "func (b *Bolt) Put("), '''func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
	return b.write(id, dataType, data, false, ErrAlreadyExists)
}

func (b *Bolt) write(id []byte, dataType DataType, data []byte, present bool, otherwise error) error {
	key := newBoltKey(id, dataType)
	return b.store.Update(func(tx *bolt.Tx) error {
		bucket := tx.Bucket(b.objectBucket)
		if found := bucket.Get(key) != nil; found != present {
			return otherwise
		}
		return bucket.Put(key, data)
	})
}
'''), ("io/bolt.go", fn("io/bolt.go", "func (b *Bolt) Update("), '''func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
	return b.write(id, dataType, data, true, ErrNotFound)
}
'''))
refac("sa-with-member", ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) AddUserToGroups("), '''func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gids ...string) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "add user to group")
	return s.changeGroups(ctx, token, uid, gids, func(u *User) { u.addGroups(gids...) })
}

func (s *Standalone) changeGroups(ctx context.Context, token, uid string, gids []string, change func(*User)) error {
	caller, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}
	missing := 0
	for _, gid := range gids {
		if _, member := caller.Groups[gid]; !member {
			missing++
		}
	}
	if missing > 0 {
		return ErrNotAuthorized
	}
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	change(user)
	return s.putUser(ctx, uid, user, true)
}
'''), ("id/standalone.go", fn("id/standalone.go", "func (s *Standalone) RemoveUserFromGroups("), '''func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string, gids ...string) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "remove user from group")
	return s.changeGroups(ctx, token, uid, gids, func(u *User) { u.removeGroups(gids...) })
}
'''))
refac("scope-union-rec", ("id/scope.go", fn("id/scope.go", "func ScopeUnion("), '''func ScopeUnion(scopes ...Scope) Scope {
	switch len(scopes) {
	case 0:
		return 0
	case 1:
		return scopes[0]
	}
	return scopes[0] | ScopeUnion(scopes[1:]...)
}
'''))
refac("token-encoder", ("data/token.go", fn("data/token.go", "func (t *SealedToken) String("), '''func (t *SealedToken) String() (string, error) {
	b, err := json.Marshal(t)
	if err != nil {
		return "", err
	}
	out := make([]byte, base64.RawURLEncoding.EncodedLen(len(b)))
	base64.RawURLEncoding.Encode(out, b)
	return string(out), nil
}
'''))
refac("delete-ladder", ("d1.go", fn("d1.go", "func (d *D1) Delete("), '''func (d *D1) Delete(ctx context.Context, token string, oid uuid.UUID) error {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "delete")
	log.WithObjectID(ctx, oid.String())

	identity, err := d.verifyAccess(ctx, token, id.ScopeDelete)
	if err != nil {
		return err
	}
	access, err := d.getSealedAccess(ctx, oid)
	if err == nil {
		_, err = d.authorizeAccess(ctx, &identity, id.ScopeDelete, access)
		if err == nil {
			err = d.deleteSealedObject(ctx, oid)
		}
		if err == nil {
			err = d.deleteSealedAccess(ctx, oid)
		}
	} else if err == ErrAccessNotFound {
		err = nil
	}
	return err
}
'''))
refac("ix-delete-collect", ("index/index.go", fn("index/index.go", "func (i *SecureIndex) deleteNode("), '''func (i *SecureIndex) deleteNode(ctx context.Context, label []byte, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
	victim := label
	next, err := i.getNextNode(ctx, node, tagger, cryptor)
	switch {
	case errors.Is(err, ErrNodeNotFound):
	case err != nil:
		return err
	default:
		sealed, err := next.Seal(label, cryptor)
		if err != nil {
			return err
		}
		if err := i.putSealedNode(ctx, label, &sealed, true); err != nil {
			return err
		}
		if victim, err = node.NextLabel(tagger); err != nil {
			return err
		}
	}
	return i.deleteSealedNode(ctx, victim)
}
'''))
refac("identity-loop-groups", ("id/standalone.go", '''	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}
''', '''	identity := Identity{ID: id, Scopes: user.Scopes, Groups: map[string]AccessGroup{}}
	for gid := range user.getGroups() {
		if err := s.addGroup(ctx, &identity, gid); err != nil {
			return Identity{}, err
		}
	}
'''), ("id/standalone.go", '''	return Identity{
		ID:     id,
		Scopes: user.Scopes,
		Groups: groups,
	}, nil
}
''', '''	return identity, nil
}

func (s *Standalone) addGroup(ctx context.Context, identity *Identity, gid string) error {
	group, err := s.getGroup(ctx, gid)
	if err == nil {
		identity.Groups[gid] = AccessGroup{ID: gid, Scopes: group.Scopes}
	}
	return err
}
'''))
refac("kwp-step-struct", ("crypto/kwp.go", '''			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
	return data, nil
}

// invertW''', '''			mixRound(buf, uint32(i*blockCount+j+1))

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)
	return data, nil
}

func mixRound(buf []byte, t uint32) {
	buf[4] ^= byte(t >> 24)
	buf[5] ^= byte(t >> 16)
	buf[6] ^= byte(t >> 8)
	buf[7] ^= byte(t)
}

// invertW'''))
