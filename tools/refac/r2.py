refac("id-getids-append", ("id/id.go", '''	ids := make(map[string]struct{}, len(i.Groups)+1)
	ids[i.ID] = struct{}{}
	for gid := range i.Groups {
		ids[gid] = struct{}{}
	}
	return ids''', '''	ids := map[string]struct{}{}
	for gid := range i.Groups {
		ids[gid] = struct{}{}
	}
	ids[i.ID] = struct{}{}
	return ids'''))

refac("id-scope-switch", ("id/id.go", '''	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone''', '''	group, isGroup := i.Groups[id]
	switch {
	case id == i.ID:
		return i.Scopes
	case isGroup:
		return group.Scopes
	default:
		return ScopeNone
	}'''))

refac("id-scope-zero", ("id/id.go", '''	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	return ScopeNone''', '''	return i.Groups[id].Scopes'''))

refac("scope-bits", ("id/scope.go", '''	return (s & scope) == scope''', '''	return scope&^s == 0'''), ("id/scope.go", '''	result := ScopeNone
	for _, scope := range scopes {
		result |= scope
	}
	return result''', '''	var result Scope
	for i := range scopes {
		result = result | scopes[i]
	}
	return result'''))
refac("scope-missing", ("id/scope.go", '''	return (s & scope) == scope''', '''	missing := scope &^ s
	return missing == ScopeNone'''))
refac("scope-union-or", ("id/scope.go", '''	return (s & scope) == scope''', '''	return s|scope == s'''))

refac("sa-groups-helper", ("id/standalone.go", '''	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}
''', '''	groups, err := s.accessGroups(ctx, user)
	if err != nil {
		return Identity{}, err
	}
'''), ("id/standalone.go", '''// putUser seals''', '''func (s *Standalone) accessGroups(ctx context.Context, user *User) (map[string]AccessGroup, error) {
	groups := map[string]AccessGroup{}
	for gid := range user.Groups {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return nil, err
		}
		ag := AccessGroup{ID: gid}
		ag.Scopes = group.Scopes
		groups[gid] = ag
	}
	return groups, nil
}

// putUser seals'''))

refac("sa-member-helper", ("id/standalone.go", '''	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}
''', '''	if !isMemberOfAll(&identity, gids) {
		return ErrNotAuthorized
	}
''', "all"), ("id/standalone.go", '''// putUser seals''', '''func isMemberOfAll(identity *Identity, gids []string) bool {
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return false
		}
	}
	return true
}

// putUser seals'''))

refac("sa-member-helper-getuser", ("id/standalone.go", '''	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}

	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
''', '''	return s.changeGroups(ctx, token, uid, gids, func(u *User) { u.addGroups(gids...) })
'''), ("id/standalone.go", '''// putUser seals''', '''func (s *Standalone) changeGroups(ctx context.Context, token, uid string, gids []string, change func(*User)) error {
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; ok {
			continue
		}
		return ErrNotAuthorized
	}
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	change(user)
	return s.putUser(ctx, uid, user, true)
}

// putUser seals'''))

refac("sa-login-helper", ("id/standalone.go", '''	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	log.Ctx(ctx).Debug().Msg("authenticating")
	if err := user.authenticate(password); err != nil {
		return "", 0, ErrNotAuthenticated
	}
''', '''	if _, err := s.authenticateUser(ctx, uid, password); err != nil {
		return "", 0, err
	}
'''), ("id/standalone.go", '''// putUser seals''', '''func (s *Standalone) authenticateUser(ctx context.Context, uid, password string) (*User, error) {
	user, err := s.getUser(ctx, uid)
	if err == nil {
		err = user.authenticate(password)
	}
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return nil, ErrNotAuthenticated
	}
	return user, nil
}

// putUser seals'''))

refac("sa-change-password-copy", ("id/standalone_user.go", '''	if err := u.authenticate(oldPassword); err != nil {
		return "", err
	}

	newPwd, newSaltAndHash, err := defaultPwdHasher.GeneratePassword()
	if err != nil {
		return "", err
	}

	u.SaltAndHash = newSaltAndHash

	return newPwd, nil''', '''	err := u.authenticate(oldPassword)
	if err != nil {
		return "", err
	}

	var newPwd string
	newPwd, u.SaltAndHash, err = defaultPwdHasher.GeneratePassword()
	return newPwd, err'''))

refac("sa-new-user-literal", ("id/standalone_user.go", '''	user := User{
		SaltAndHash: saltAndHash,
		Scopes:      ScopeUnion(scopes...),
		Groups:      make(map[string]struct{}),
	}

	return user, pwd, nil''', '''	user := new(User)
	user.Groups = map[string]struct{}{}
	for _, scope := range scopes {
		user.Scopes |= scope
	}
	user.SaltAndHash = saltAndHash
	return *user, pwd, nil'''))

refac("sa-put-switch", ("id/standalone.go", '''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored user")
		err := s.ioProvider.Update(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
		if errors.Is(err, io.ErrNotFound) {
			return ErrUserNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new user")
	err = s.ioProvider.Put(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrUserAlreadyExists
	}
	return err''', '''	key := []byte(uid)
	if update {
		err = s.ioProvider.Update(ctx, key, DataTypeSealedUser, b)
	} else {
		err = s.ioProvider.Put(ctx, key, DataTypeSealedUser, b)
	}
	switch {
	case update && errors.Is(err, io.ErrNotFound):
		return ErrUserNotFound
	case !update && errors.Is(err, io.ErrAlreadyExists):
		return ErrUserAlreadyExists
	default:
		return err
	}'''))

refac("sa-newgroup-inline", ("id/standalone.go", '''	user, err := s.getUser(ctx, identity.ID)
	if err != nil {
		return "", err
	}

	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}

	return gidString, nil''', '''	if err := s.joinGroup(ctx, identity.ID, gidString); err != nil {
		return "", err
	}
	return gidString, nil'''), ("id/standalone.go", '''// putUser seals''', '''func (s *Standalone) joinGroup(ctx context.Context, uid string, gid string) error {
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	user.Groups[gid] = struct{}{}
	return s.putUser(ctx, uid, user, true)
}

// putUser seals'''))

refac("sa-unseal-pointer", ("id/standalone_user.go", '''	plainUser := User{}
	if err := cryptor.Decrypt(&plainUser, u.UID, u.WrappedKey, u.Ciphertext); err != nil {
		return User{}, err
	}
	return plainUser, nil''', '''	plainUser := &User{}
	err := cryptor.Decrypt(plainUser, u.UID, u.WrappedKey, u.Ciphertext)
	if err != nil {
		return User{}, err
	}
	return *plainUser, nil'''))

refac("sa-unseal-named", ("id/standalone_group.go", '''	plainGroup := Group{}
	if err := cryptor.Decrypt(&plainGroup, g.GID, g.WrappedKey, g.Ciphertext); err != nil {
		return Group{}, err
	}
	return plainGroup, nil''', '''	var plainGroup Group
	err := cryptor.Decrypt(&plainGroup, g.GID, g.WrappedKey, g.Ciphertext)
	if err != nil {
		plainGroup = Group{}
	}
	return plainGroup, err'''))

refac("ix-tagger-split", ("index/index.go", '''	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, i.indexKey, []byte("label"), []byte(keyword))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))

	tagger, err := crypto.NewKMAC256Tagger(k1)
	if err != nil {
		return nil, nil, err
	}
	cryptor, err := crypto.NewAESCryptor(k2)
	if err != nil {
		return nil, nil, err
	}
''', '''	derive := func(size int, purpose string) []byte {
		return crypto.KMACKDF(size, i.indexKey, []byte(purpose), []byte(keyword))
	}

	tagger, err := crypto.NewKMAC256Tagger(derive(crypto.TaggerKeyLength, "label"))
	if err != nil {
		return nil, nil, err
	}
	cryptor, err := crypto.NewAESCryptor(derive(crypto.EncryptionKeyLength, "id"))
	if err != nil {
		return nil, nil, err
	}
'''))

refac("ix-verify-switch", ("index/index.go", '''	if !identity.Scopes.Contains(id.ScopeIndex) {
		log.Ctx(ctx).Debug().Stringer("scope", id.ScopeIndex).Msg("scope missing")
		return ErrNotAuthorized
	}

	return nil''', '''	if identity.Scopes.Contains(id.ScopeIndex) {
		return nil
	}
	log.Ctx(ctx).Debug().Stringer("scope", id.ScopeIndex).Msg("scope missing")
	return ErrNotAuthorized'''))

refac("ix-label-once", ("index/index.go", '''	last, err := i.getLastNode(ctx, tagger, cryptor)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("adding new node")
	label, err := last.NextLabel(tagger)
	if err != nil {
		return err
	}

	// The new node's counter is incremented by one, since the label of the new node
''', '''	last, err := i.getLastNode(ctx, tagger, cryptor)
	if err != nil {
		return err
	}

	label, err := last.NextLabel(tagger)
	log.Ctx(ctx).Debug().Msg("adding new node")
	if err != nil {
		return err
	}

	// The new node's counter is incremented by one, since the label of the new node
''')) if False else None

refac("node-label-append", ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])''', '''	return tagger.Tag(binary.AppendUvarint(nil, n.NextCounter))'''))
refac("node-label-array", ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])''', '''	var buf [binary.MaxVarintLen64]byte
	used := binary.PutUvarint(buf[:], n.NextCounter)
	label := buf[:used]
	return tagger.Tag(label)'''))

refac("mem-rwmutex", ("io/mem.go", "sync.Mutex", "sync.RWMutex"), ("io/mem.go", '''	out, ok := m.data.Load(key)
''', '''	m.mutex.RLock()
	out, ok := m.data.Load(key)
	m.mutex.RUnlock()
'''))
refac("mem-plain-map", ("io/mem.go", "	data sync.Map\n", "	data map[string][]byte\n"), ("io/mem.go", "	return Mem{}\n", "	return Mem{data: make(map[string][]byte)}\n"),
 ("io/mem.go", '''	if _, ok := m.data.Load(key); ok {
''', '''	if _, ok := m.data[key]; ok {
'''), ("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
''', '''	if _, ok := m.data[key]; !ok {
'''), ("io/mem.go", '''	m.data.Store(key, append([]byte{}, data...))
''', '''	m.data[key] = append([]byte{}, data...)
''', "all"), ("io/mem.go", '''	m.data.Delete(key)
''', '''	delete(m.data, key)
'''), ("io/mem.go", '''	out, ok := m.data.Load(key)
	if !ok {
		return nil, ErrNotFound
	}
	data := append([]byte{}, out.([]byte)...)
	return data, nil''', '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	out, ok := m.data[key]
	if !ok {
		return nil, ErrNotFound
	}
	return append([]byte{}, out...), nil'''))
refac("mem-loadorstore", ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); ok {
		return ErrAlreadyExists
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil''', '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	stored := make([]byte, len(data))
	copy(stored, data)
	if _, exists := m.data.LoadOrStore(key, stored); exists {
		return ErrAlreadyExists
	}
	return nil'''))
refac("mem-helper-clone", ("io/mem.go", '''	m.data.Store(key, append([]byte{}, data...))
''', '''	m.set(key, data)
''', "all"), ("io/mem.go", '''func NewMem()''', '''// set stores a copy of the data.
func (m *Mem) set(key string, data []byte) {
	stored := make([]byte, len(data))
	copy(stored, data)
	m.data.Store(key, stored)
}

func NewMem()'''))
refac("mem-key-strconv", ("io/mem.go", '''	key := fmt.Sprintf("%x:%s", id, dataType.String())
	return key''', '''	return hex.EncodeToString(id) + ":" + dataType.String()'''), ("io/mem.go", '''	"fmt"
''', '''	"encoding/hex"
'''))
refac("mem-key-struct", ("io/mem.go", '''func newKey(id []byte, dataType DataType) string {
	key := fmt.Sprintf("%x:%s", id, dataType.String())
	return key''', '''type memKey struct {
	id       string
	dataType DataType
}

func newKey(id []byte, dataType DataType) memKey {
	return memKey{string(id), dataType}'''), ("io/mem.go", '''	"fmt"
''', ''))
refac("mem-with-lock", ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil''', '''	return m.locked(func() error {
		if _, ok := m.data.Load(key); !ok {
			return ErrNotFound
		}
		m.data.Store(key, append([]byte{}, data...))
		return nil
	})'''), ("io/mem.go", '''func NewMem()''', '''func (m *Mem) locked(f func() error) error {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	return f()
}

func NewMem()'''))
refac("bolt-with-bucket", ("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})''', '''	return b.update(func(bucket *bolt.Bucket) error {
		if bucket.Get(key) == nil {
			return ErrNotFound
		}
		return bucket.Put(key, data)
	})'''), ("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		return b.Delete(key)
	})''', '''	return b.update(func(bucket *bolt.Bucket) error { return bucket.Delete(key) })'''), ("io/bolt.go", '''// newBoltKey copies''', '''func (b *Bolt) update(f func(*bolt.Bucket) error) error {
	return b.store.Update(func(tx *bolt.Tx) error {
		return f(tx.Bucket(b.objectBucket))
	})
}

// newBoltKey copies'''))
refac("bolt-manual-tx", ("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		return b.Delete(key)
	})''', '''	tx, err := b.store.Begin(true)
	if err != nil {
		return err
	}
	defer tx.Rollback()
	if err := tx.Bucket(b.objectBucket).Delete(key); err != nil {
		return err
	}
	return tx.Commit()'''))
refac("bolt-get-notfound-inside", ("io/bolt.go", '''		b := tx.Bucket(b.objectBucket)
		if data := b.Get(key); data != nil {
			out = append([]byte{}, data...)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if out == nil {
		return nil, ErrNotFound
	}
	return out, nil''', '''		stored := tx.Bucket(b.objectBucket).Get(key)
		if stored == nil {
			return ErrNotFound
		}
		out = make([]byte, len(stored))
		copy(out, stored)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil'''))
refac("bolt-key-buffer", ("io/bolt.go", '''	return append(append([]byte{}, id...), dataType.Bytes()...)''', '''	suffix := dataType.Bytes()
	key := make([]byte, len(id)+len(suffix))
	copy(key[copy(key, id):], suffix)
	return key'''))
refac("io-type-strconv", ("io/io.go", '''	return fmt.Sprintf("%d", d)''', '''	return strconv.Itoa(int(d))'''), ("io/io.go", '''	"fmt"
''', '''	"strconv"
'''))
refac("proxy-assign", ("io/proxy.go", '''	return Proxy{
		Implementation: implementation,
		PutFunc:        implementation.Put,
		GetFunc:        implementation.Get,
		UpdateFunc:     implementation.Update,
		DeleteFunc:     implementation.Delete,
	}''', '''	proxy := Proxy{Implementation: implementation}
	proxy.PutFunc = implementation.Put
	proxy.GetFunc = func(ctx context.Context, id []byte, dataType DataType) ([]byte, error) {
		return implementation.Get(ctx, id, dataType)
	}
	proxy.UpdateFunc = implementation.Update
	proxy.DeleteFunc = implementation.Delete
	return proxy'''))
