# Refactorings in other styles: helpers with callbacks, error tables, loops turned round, state kept in structs.

SEARCH_OLD = '''	for {
		// Get the next Node. If ErrNodeNotFound, all the identifiers that contain the given keyword
		// have been found, and the function should return them.
		decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			break
		}
		if err != nil {
			return nil, err
		}

		identifiers = append(identifiers, decryptedNode.Identifier)
	}

	return identifiers, nil
'''
refac("ix-walk-callback",
 ("index/index.go", '''	decryptedNode := data.Node{}
	identifiers := []string{}

	log''', '''	identifiers := []string{}

	log'''),
 ("index/index.go", SEARCH_OLD, '''	_, err = i.walk(ctx, tagger, cryptor, func(n data.Node) {
		identifiers = append(identifiers, n.Identifier)
	})
	if err != nil {
		return nil, err
	}
	return identifiers, nil
'''),
 ("index/index.go", '''	decryptedNode := data.Node{}

	for {
		// Get the next Node. If ErrNodeNotFound, then the last Node has been found, and the
		// function should return it.
		nextDecrypted, err := i.getNextNode(ctx, decryptedNode, tagger, cryptor)
		if errors.Is(err, ErrNodeNotFound) {
			return decryptedNode, nil
		}
		if err != nil {
			return data.Node{}, err
		}

		decryptedNode = nextDecrypted
	}
}
''', '''	return i.walk(ctx, tagger, cryptor, func(data.Node) {})
}

// walk visits the nodes in order and returns the last one.
func (i *SecureIndex) walk(ctx context.Context, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface, visit func(data.Node)) (data.Node, error) {
	current := data.Node{}
	for {
		next, err := i.getNextNode(ctx, current, tagger, cryptor)
		switch {
		case err == nil:
			visit(next)
			current = next
		case errors.Is(err, ErrNodeNotFound):
			return current, nil
		default:
			return data.Node{}, err
		}
	}
}
'''))
refac("ix-search-for-cond",
 ("index/index.go", SEARCH_OLD, '''	for decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor); err == nil; decryptedNode, err = i.getNextNode(ctx, decryptedNode, tagger, cryptor) {
		identifiers = append(identifiers, decryptedNode.Identifier)
	}
	if !errors.Is(err, ErrNodeNotFound) {
		return nil, err
	}

	return identifiers, nil
'''))
refac("ix-found-bool",
 ("index/index.go", SEARCH_OLD, '''	for more := true; more; {
		var next data.Node
		if next, more, err = i.tryNext(ctx, decryptedNode, tagger, cryptor); err != nil {
			return nil, err
		}
		if more {
			identifiers = append(identifiers, next.Identifier)
			decryptedNode = next
		}
	}

	return identifiers, nil
'''),
 ("index/index.go", '''// getNextNode returns the next Node, given a current Node.
''', '''func (i *SecureIndex) tryNext(ctx context.Context, current data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) (data.Node, bool, error) {
	next, err := i.getNextNode(ctx, current, tagger, cryptor)
	if err == nil {
		return next, true, nil
	}
	if errors.Is(err, ErrNodeNotFound) {
		return data.Node{}, false, nil
	}
	return data.Node{}, false, err
}

// getNextNode returns the next Node, given a current Node.
'''))
refac("ix-delete-continue",
 ("index/index.go", '''		if next.Identifier == identifier {
			label, err := current.NextLabel(tagger)
			if err != nil {
				return err
			}
			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
		} else {
			// If nothing was deleted, we can move on.
			current = next
		}
''', '''		if next.Identifier != identifier {
			// If nothing was deleted, we can move on.
			current = next
			continue
		}
		label, err := current.NextLabel(tagger)
		if err != nil {
			return err
		}
		if err := i.deleteNode(ctx, label, next, tagger, cryptor); err != nil {
			return err
		}
'''))
refac("ix-delete-node-switch",
 ("index/index.go", '''	if errors.Is(err, ErrNodeNotFound) {
		log.Ctx(ctx).Debug().Msg("last node, deleting")
		if err = i.deleteSealedNode(ctx, label); err != nil {
			return err
		}
		return nil
	}
	if err != nil {
		return err
	}

	// Overwrite original node with the next node
	log.Ctx(ctx).Debug().Msg("overwriting with next node")
	updatedSealedNode, err := next.Seal(label, cryptor)
	if err != nil {
		return err
	}
	if err := i.putSealedNode(ctx, label, &updatedSealedNode, true); err != nil {
		return err
	}

	// Delete next.
	log.Ctx(ctx).Debug().Msg("deleting next node")
	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	if err := i.deleteSealedNode(ctx, nextLabel); err != nil {
		return err
	}

	return nil
}
''', '''	switch {
	case err == nil:
		return i.pullUp(ctx, label, node, next, tagger, cryptor)
	case errors.Is(err, ErrNodeNotFound):
		log.Ctx(ctx).Debug().Msg("last node, deleting")
		return i.deleteSealedNode(ctx, label)
	}
	return err
}

// pullUp overwrites a node with the one that follows it, which is deleted.
func (i *SecureIndex) pullUp(ctx context.Context, label []byte, node, next data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
	nextLabel, err := node.NextLabel(tagger)
	if err != nil {
		return err
	}
	log.Ctx(ctx).Debug().Msg("overwriting with next node")
	updated, err := next.Seal(label, cryptor)
	if err != nil {
		return err
	}
	if err = i.putSealedNode(ctx, label, &updated, true); err != nil {
		return err
	}
	log.Ctx(ctx).Debug().Msg("deleting next node")
	return i.deleteSealedNode(ctx, nextLabel)
}
'''))
refac("ix-derive-helper",
 ("index/index.go", '''	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, i.indexKey, []byte("label"), []byte(keyword))
	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))

	tagger, err := crypto.NewKMAC256Tagger(k1)
	if err != nil {
		return nil, nil, err
	}
	cryptor, err := crypto.NewAESCryptor(k2)
	if err != nil {
		return nil, nil, err
	}
''', '''	derive := func(size int, purpose string) []byte {
		return crypto.KMACKDF(size, i.indexKey, []byte(purpose), []byte(keyword))
	}

	cryptor, err := crypto.NewAESCryptor(derive(crypto.EncryptionKeyLength, "id"))
	if err != nil {
		return nil, nil, err
	}
	tagger, err := crypto.NewKMAC256Tagger(derive(crypto.TaggerKeyLength, "label"))
	if err != nil {
		return nil, nil, err
	}
'''))
refac("ix-chain-struct",
 ("index/index.go", '''	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return err
	}

	// Compute the current last''', '''	ch, err := i.chain(keyword)
	if err != nil {
		return err
	}
	tagger, cryptor := ch.tagger, ch.cryptor

	// Compute the current last'''),
 ("index/index.go", '''// getLastNode computes''', '''type chain struct {
	tagger  crypto.TaggerInterface
	cryptor crypto.CryptorInterface
}

func (i *SecureIndex) chain(keyword string) (c chain, err error) {
	c.tagger, c.cryptor, err = i.getTaggerAndCryptor(keyword)
	return c, err
}

// getLastNode computes'''))
refac("ix-map-error",
 ("index/index.go", '''		err := i.ioProvider.Update(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrNodeNotFound
		}
		return err
	}
''', '''		return replaceError(i.ioProvider.Update(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes), io.ErrNotFound, ErrNodeNotFound)
	}
'''),
 ("index/index.go", '''	err = i.ioProvider.Put(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrNodeAlreadyExists
	}
	return err
}
''', '''	return replaceError(i.ioProvider.Put(ctx, tag, io.DataTypeSealedNode, sealedNodeBytes), io.ErrAlreadyExists, ErrNodeAlreadyExists)
}

func replaceError(err, from, to error) error {
	if errors.Is(err, from) {
		return to
	}
	return err
}
'''))
refac("ut-error-table",
 ("utility.go", '''		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}

	log''', '''		return known(err, ioError{io.ErrNotFound, ErrObjectNotFound})
	}

	log'''),
 ("utility.go", '''	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err
}
''', '''	return known(err, ioError{io.ErrAlreadyExists, ErrObjectAlreadyExists})
}

type ioError struct{ from, to error }

// known translates the errors of an IO Provider.
func known(err error, table ...ioError) error {
	for _, e := range table {
		if errors.Is(err, e.from) {
			return e.to
		}
	}
	return err
}
'''))
refac("ut-verify-named-defer",
 ("utility.go", '''func (d *D1) verifyAccess(ctx context.Context, token string, scope id.Scope) (id.Identity, error) {
	log.Ctx(ctx).Debug().Msg("authenticating caller")
	identity, err := d.idProvider.GetIdentity(ctx, token)
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return id.Identity{}, ErrNotAuthenticated
	}
''', '''func (d *D1) verifyAccess(ctx context.Context, token string, scope id.Scope) (caller id.Identity, err error) {
	defer func() {
		if err != nil {
			caller = id.Identity{}
		}
	}()
	log.Ctx(ctx).Debug().Msg("authenticating caller")
	identity, err := d.idProvider.GetIdentity(ctx, token)
	if err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
		return identity, ErrNotAuthenticated
	}
'''))
refac("ut-authorize-method",
 ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
}
''', '''	grants := func(gid string) bool {
		if !plainAccess.ContainsGroups(gid) {
			return false
		}
		granted := identity.GetIDScope(gid)
		return granted.Contains(scopes)
	}
	ids := identity.GetIDs()
	for gid := range ids {
		if !grants(gid) {
			continue
		}
		return plainAccess, nil
	}
	return data.Access{}, ErrNotAuthorized
}
'''))
refac("ut-object-key-helper",
 ("utility.go", '''	objectBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedObject)
	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrObjectNotFound
	}
	if err != nil {
		return nil, err
	}

	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
		return nil, err
	}
''', '''	object := &data.SealedObject{}
	if err := d.load(ctx, oid, io.DataTypeSealedObject, ErrObjectNotFound, object); err != nil {
		return nil, err
	}
'''),
 ("utility.go", '''	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrAccessNotFound
	}
	if err != nil {
		return nil, err
	}

	access := &data.SealedAccess{}
	if err := json.Unmarshal(accessBytes, access); err != nil {
		return nil, err
	}
''', '''	access := new(data.SealedAccess)
	if err := d.load(ctx, oid, io.DataTypeSealedAccess, ErrAccessNotFound, access); err != nil {
		return nil, err
	}
'''),
 ("utility.go", '''// deleteSealedAccess deletes''', '''func (d *D1) load(ctx context.Context, oid uuid.UUID, dataType io.DataType, notFound error, into interface{}) error {
	stored, err := d.ioProvider.Get(ctx, oid.Bytes(), dataType)
	if err != nil {
		if errors.Is(err, io.ErrNotFound) {
			return notFound
		}
		return err
	}
	return json.Unmarshal(stored, into)
}

// deleteSealedAccess deletes'''))
refac("d1-with-access",
 ("d1.go", '''	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
	plainAccess.AddGroups(groups...)

	log.Ctx(ctx).Debug().Msg("sealing access")
	*access, err = plainAccess.Seal(oid, d.accessCryptor)
	if err != nil {
		return err
	}

	return d.putSealedAccess(ctx, access, true)
}
''', '''	return d.changeAccess(ctx, oid, plainAccess, func(a *data.Access) { a.AddGroups(groups...) })
}

func (d *D1) changeAccess(ctx context.Context, oid uuid.UUID, access data.Access, change func(*data.Access)) error {
	change(&access)

	log.Ctx(ctx).Debug().Msg("sealing access")
	sealed, err := access.Seal(oid, d.accessCryptor)
	if err != nil {
		return err
	}
	return d.putSealedAccess(ctx, &sealed, true)
}
'''))
refac("d1-authorized-helper",
 ("d1.go", '''	identity, err := d.verifyAccess(ctx, token, id.ScopeGetAccessGroups)
	if err != nil {
		return nil, err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return nil, err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeGetAccessGroups, access)
	if err != nil {
		return nil, err
	}
''', '''	_, plainAccess, err := d.authorized(ctx, token, oid, id.ScopeGetAccessGroups)
	if err != nil {
		return nil, err
	}
'''),
 ("d1.go", '''	identity, err := d.verifyAccess(ctx, token, id.ScopeModifyAccessGroups)
	if err != nil {
		return err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeModifyAccessGroups, access)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
''', '''	access, plainAccess, err := d.authorized(ctx, token, oid, id.ScopeModifyAccessGroups)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("adding groups")
'''),
 ("d1.go", '''// AddGroupsToAccess appends''', '''func (d *D1) authorized(ctx context.Context, token string, oid uuid.UUID, scope id.Scope) (*data.SealedAccess, data.Access, error) {
	identity, err := d.verifyAccess(ctx, token, scope)
	if err != nil {
		return nil, data.Access{}, err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return nil, data.Access{}, err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, scope, access)
	return access, plainAccess, err
}

// AddGroupsToAccess appends'''))
refac("d1-start-helper",
 ("d1.go", '''	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "update")
	log.WithObjectID(ctx, oid.String())
''', '''	ctx = started(ctx, "update", &oid)
'''),
 ("d1.go", '''	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, "encrypt")
''', '''	ctx = started(ctx, "encrypt", nil)
'''),
 ("d1.go", '''// Update creates a new sealed''', '''func started(ctx context.Context, method string, oid *uuid.UUID) context.Context {
	ctx = log.CopyCtxLogger(ctx)
	log.WithMethod(ctx, method)
	if oid != nil {
		log.WithObjectID(ctx, oid.String())
	}
	return ctx
}

// Update creates a new sealed'''))
refac("d1-delete-errorsis",
 ("d1.go", '''	switch err {
	case nil:
		// Ignore and proceed
	case ErrAccessNotFound:
''', '''	switch {
	case err == nil:
		// Ignore and proceed
	case errors.Is(err, ErrAccessNotFound):
'''))
refac("d1-delete-steps",
 ("d1.go", '''	if err = d.deleteSealedObject(ctx, oid); err != nil {
		return err
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil
''', '''	steps := []func(context.Context, uuid.UUID) error{d.deleteSealedObject, d.deleteSealedAccess}
	for _, step := range steps {
		if err := step(ctx, oid); err != nil {
			return err
		}
	}
	return nil
'''))
refac("d1-store-pair",
 ("d1.go", '''	if err := d.putSealedObject(ctx, &sealedObject, false); err != nil {
		return uuid.Nil, err
	}
	if err := d.putSealedAccess(ctx, &sealedAccess, false); err != nil {
		return uuid.Nil, err
	}

	return oid, nil
''', '''	if err := d.store(ctx, &sealedObject, &sealedAccess, false); err != nil {
		return uuid.Nil, err
	}

	return oid, nil
'''),
 ("d1.go", '''	if err := d.putSealedObject(ctx, &sealedObject, true); err != nil {
		return err
	}
	if err := d.putSealedAccess(ctx, &sealedAccess, true); err != nil {
		return err
	}

	return nil
}
''', '''	return d.store(ctx, &sealedObject, &sealedAccess, true)
}

func (d *D1) store(ctx context.Context, object *data.SealedObject, access *data.SealedAccess, update bool) error {
	err := d.putSealedObject(ctx, object, update)
	if err == nil {
		err = d.putSealedAccess(ctx, access, update)
	}
	return err
}
'''))
refac("d1-cryptors-table",
 ("d1.go", '''	log.Ctx(ctx).Debug().Msg("creating object cryptor")
	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating access cryptor")
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating token cryptor")
	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}

	return D1{
		keyProvider:   keyProvider,
		ioProvider:    ioProvider,
		idProvider:    idProvider,
		objectCryptor: &objectCryptor,
		accessCryptor: &accessCryptor,
		tokenCryptor:  &tokenCryptor,
	}, nil
}
''', '''	d := D1{
		keyProvider: keyProvider,
		ioProvider:  ioProvider,
		idProvider:  idProvider,
	}
	for _, c := range []struct {
		name string
		key  []byte
		to   *crypto.CryptorInterface
	}{
		{"object", keys.KEK, &d.objectCryptor},
		{"access", keys.AEK, &d.accessCryptor},
		{"token", keys.TEK, &d.tokenCryptor},
	} {
		log.Ctx(ctx).Debug().Msgf("creating %s cryptor", c.name)
		cryptor, err := crypto.NewAESCryptor(c.key)
		if err != nil {
			return D1{}, err
		}
		*c.to = &cryptor
	}
	return d, nil
}
'''))
refac("token-expired-method",
 ("data/token.go", '''	if t.ExpiryTime.Before(time.Now()) {
		return Token{}, errors.New("Token expired")
	}
''', '''	if t.expired(time.Now()) {
		return Token{}, errExpired
	}
'''),
 ("data/token.go", '''// String serializes''', '''var errExpired = errors.New("Token expired")

func (t *SealedToken) expired(now time.Time) bool {
	return now.After(t.ExpiryTime)
}

// String serializes'''))
refac("token-named-literal",
 ("data/token.go", '''	var token SealedToken
	if err := json.Unmarshal(tokenBytes, &token); err != nil {
		return SealedToken{}, err
	}
	return token, nil
''', '''	token := new(SealedToken)
	err = json.Unmarshal(tokenBytes, token)
	if err != nil {
		return SealedToken{}, err
	}
	return *token, nil
'''))
refac("sa-with-user",
 ("id/standalone.go", '''	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	user.addGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
}
''', '''	log.Ctx(ctx).Debug().Msgf("adding user to %d groups", len(gids))
	return s.withUser(ctx, uid, func(user *User) { user.addGroups(gids...) })
}

func (s *Standalone) withUser(ctx context.Context, uid string, change func(*User)) error {
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
	change(user)
	return s.putUser(ctx, uid, user, true)
}
'''),
 ("id/standalone.go", '''	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
	user.removeGroups(gids...)
	if err := s.putUser(ctx, uid, user, true); err != nil {
		return err
	}

	return nil
}
''', '''	log.Ctx(ctx).Debug().Msgf("removing user from %d groups", len(gids))
	return s.withUser(ctx, uid, func(user *User) { user.removeGroups(gids...) })
}
'''),
 ("id/standalone.go", '''	user, err := s.getUser(ctx, identity.ID)
	if err != nil {
		return "", err
	}

	user.addGroups(gidString)
	if err := s.putUser(ctx, identity.ID, user, true); err != nil {
		return "", err
	}
''', '''	if err := s.withUser(ctx, identity.ID, func(user *User) { user.addGroups(gidString) }); err != nil {
		return "", err
	}
'''))
refac("sa-put-funcvalue",
 ("id/standalone.go", '''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored user")
		err := s.ioProvider.Update(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
		if errors.Is(err, io.ErrNotFound) {
			return ErrUserNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new user")
	err = s.ioProvider.Put(ctx, []byte(sealedUser.UID), DataTypeSealedUser, b)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrUserAlreadyExists
	}
	return err
''', '''	store, from, to := s.ioProvider.Put, io.ErrAlreadyExists, ErrUserAlreadyExists
	if update {
		store, from, to = s.ioProvider.Update, io.ErrNotFound, ErrUserNotFound
	}
	log.Ctx(ctx).Debug().Bool("update", update).Msg("storing user")
	if err := store(ctx, []byte(uid), DataTypeSealedUser, b); errors.Is(err, from) {
		return to
	} else {
		return err
	}
'''))
refac("sa-require-member-count",
 ("id/standalone.go", '''	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	missing := 0
	for i := range gids {
		if _, ok := identity.Groups[gids[i]]; !ok {
			missing++
		}
	}
	if missing > 0 {
		return ErrNotAuthorized
	}

	// Update'''))
refac("sa-identity-groups",
 ("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("fetching %d groups", len(user.Groups))
	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}

	return Identity{
		ID:     id,
		Scopes: user.Scopes,
		Groups: groups,
	}, nil
}
''', '''	identity := Identity{ID: id, Scopes: user.Scopes}
	if err := s.fillGroups(ctx, &identity, user); err != nil {
		return Identity{}, err
	}
	return identity, nil
}

func (s *Standalone) fillGroups(ctx context.Context, identity *Identity, user *User) error {
	identity.Groups = map[string]AccessGroup{}
	for gid := range user.Groups {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return err
		}
		entry := AccessGroup{ID: gid}
		entry.Scopes = group.Scopes
		identity.Groups[gid] = entry
	}
	return nil
}
'''))
refac("sa-auth-wrap",
 ("id/standalone.go", '''	sealedToken, err := data.TokenFromString(token)
	if err != nil {
		return Identity{}, ErrNotAuthenticated
	}

	log.Ctx(ctx).Debug().Msg("unsealing token")
	plainToken, err := sealedToken.Unseal(s.tokenCryptor)
	if err != nil {
		return Identity{}, ErrNotAuthenticated
	}

	id := string(plainToken.Plaintext)
''', '''	id, ok := s.tokenOwner(ctx, token)
	if !ok {
		return Identity{}, ErrNotAuthenticated
	}
'''),
 ("id/standalone.go", '''// NewUser creates a new user with''', '''func (s *Standalone) tokenOwner(ctx context.Context, token string) (string, bool) {
	sealedToken, err := data.TokenFromString(token)
	if err == nil {
		log.Ctx(ctx).Debug().Msg("unsealing token")
		var plain data.Token
		if plain, err = sealedToken.Unseal(s.tokenCryptor); err == nil {
			return string(plain.Plaintext), true
		}
	}
	return "", false
}

// NewUser creates a new user with'''))
refac("sa-login-chain",
 ("id/standalone.go", '''	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}

	log.Ctx(ctx).Debug().Msg("authenticating")
	if err := user.authenticate(password); err != nil {
		return "", 0, ErrNotAuthenticated
	}
''', '''	if user, err := s.getUser(ctx, uid); err != nil || user.authenticate(password) != nil {
		return "", 0, ErrNotAuthenticated
	}
'''))
refac("log-add-field",
 ("log/log.go", '''	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
		return c.Str("method", method)
	})
''', '''	addField(ctx, "method", method)
'''),
 ("log/log.go", '''	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
		return c.Str("uid", id)
	})
''', '''	addField(ctx, "uid", id)
'''),
 ("log/log.go", '''	Ctx(ctx).UpdateContext(func(c zerolog.Context) zerolog.Context {
		return c.Str("oid", id)
	})
}
''', '''	addField(ctx, "oid", id)
}

func addField(ctx context.Context, name, value string) {
	logger := zerolog.Ctx(ctx)
	logger.UpdateContext(func(c zerolog.Context) zerolog.Context { return c.Str(name, value) })
}
'''))
refac("user-set-helpers",
 ("id/standalone_user.go", '''	for _, gid := range gids {
		u.Groups[gid] = struct{}{}
	}
''', '''	addAll(u.Groups, gids)
'''),
 ("id/standalone_user.go", '''// removeGroups removes''', '''func addAll(set map[string]struct{}, keys []string) {
	for i := len(keys) - 1; i >= 0; i-- {
		set[keys[i]] = struct{}{}
	}
}

// removeGroups removes'''))
refac("access-unseal-var",
 ("data/access.go", '''	plainAccess := Access{}
	if err := cryptor.Decrypt(&plainAccess, a.OID.Bytes(), a.WrappedKey, a.Ciphertext); err != nil {
		return Access{}, err
	}
	return plainAccess, nil
''', '''	var plainAccess Access
	context := a.OID.Bytes()
	err := cryptor.Decrypt(&plainAccess, context, a.WrappedKey, a.Ciphertext)
	if err == nil {
		return plainAccess, nil
	}
	return Access{}, err
'''))
refac("access-while",
 ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true
''', '''	rest := ids
	for len(rest) > 0 {
		if _, exists := a.Groups[rest[0]]; !exists {
			return false
		}
		rest = rest[1:]
	}
	return true
'''))
refac("access-all-flag",
 ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true
''', '''	all := true
	for _, id := range ids {
		_, exists := a.Groups[id]
		all = all && exists
	}
	return all
'''))
refac("node-label-helper",
 ("data/node.go", '''	buf := make([]byte, binary.MaxVarintLen64)
	m := binary.PutUvarint(buf, n.NextCounter)

	return tagger.Tag(buf[:m])
}
''', '''	return tagger.Tag(encodeCounter(n.NextCounter))
}

func encodeCounter(counter uint64) []byte {
	var buf [binary.MaxVarintLen64]byte
	return buf[:binary.PutUvarint(buf[:], counter)]
}
'''))
refac("object-context-method",
 ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	wrappedKey''', '''	associatedData := bind(oid, o.AssociatedData)

	wrappedKey'''),
 ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	plaintext''', '''	associatedData := bind(o.OID, o.AssociatedData)

	plaintext'''),
 ("data/object.go", '''// Unseal uses the wrapped key''', '''func bind(oid uuid.UUID, associatedData []byte) []byte {
	bound := make([]byte, uuid.Size+len(associatedData))
	n := copy(bound, oid[:])
	copy(bound[n:], associatedData)
	return bound
}

// Unseal uses the wrapped key'''))
refac("kwp-rounds-helper",
 ("crypto/kwp.go", '''			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)''', '''			xorRound(buf, uint(i*blockCount+j+1))

			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)'''),
 ("crypto/kwp.go", '''			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
			for b := 0; b < 4; b++ {
				buf[7-b] ^= byte(roundConst & 0xFF)
				roundConst >>= 8
			}

			kwp.block''', '''			xorRound(buf, uint(i*blockCount+j+1))

			kwp.block'''),
 ("crypto/kwp.go", '''// invertW computes the inverse''', '''// xorRound adds the round constant in big endian order to the left half of the buffer.
func xorRound(buf []byte, roundConst uint) {
	for b := 7; b > 3; b-- {
		buf[b] ^= byte(roundConst)
		roundConst >>= 8
	}
}

// invertW computes the inverse'''))
refac("kwp-single-counter",
 ("crypto/kwp.go", '''	for i := 0; i < roundCount; i++ {
		for j := 0; j < blockCount; j++ {
			copy(buf[8:], data[8*(j+1):])
			kwp.block.Encrypt(buf, buf)

			// xor the round constant in big endian order
			// to the left half of the buffer
			roundConst := uint(i*blockCount + j + 1)
''', '''	step := 0
	for i := 0; i < roundCount; i++ {
		for j := 1; j <= blockCount; j++ {
			block := data[8*j : 8*j+8]
			copy(buf[8:], block)
			kwp.block.Encrypt(buf, buf)

			// xor the round constant in big endian order
			// to the left half of the buffer
			step++
			roundConst := uint(step)
'''), ("crypto/kwp.go", '''			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data[:8], buf)''', '''			copy(block, buf[8:])
		}
	}
	copy(data[:8], buf)'''))
refac("kwp-block-slices",
 ("crypto/kwp.go", '''	blockCount := len(data)/8 - 1

	buf := make([]byte, 16)
	copy(buf, data[:8])

	for i := roundCount - 1; i >= 0; i-- {
		for j := blockCount - 1; j >= 0; j-- {
			copy(buf[8:], data[8*(j+1):])
''', '''	blockCount := (len(data) - 8) / 8

	var state [16]byte
	buf := state[:]
	copy(buf, data[:8])

	for i := roundCount - 1; i >= 0; i-- {
		for j := blockCount - 1; j >= 0; j-- {
			copy(buf[8:], data[8*(j+1):8*(j+2)])
'''))
refac("kmac-bits-len",
 ("crypto/kmac.go", '''	var b [9]byte
	binary.BigEndian.PutUint64(b[1:], value)
	// Trim all but last leading zero bytes
	i := byte(1)
	for i < 8 && b[i] == 0 {
		i++
	}
	// Prepend number of encoded bytes
	b[i-1] = 9 - i
	return b[i-1:]
''', '''	n := (bits.Len64(value|1) + 7) / 8
	var b [9]byte
	binary.BigEndian.PutUint64(b[1:], value)
	b[8-n] = byte(n)
	return b[8-n:]
'''), ("crypto/kmac.go", '''	"hash"
''', '''	"hash"
	"math/bits"
'''))
refac("aes-locals",
 ("crypto/aes.go", '''	data := ciphertext[:len(ciphertext)-nonceLength]
	nonce := ciphertext[len(ciphertext)-nonceLength:]
''', '''	split := len(ciphertext) - nonceLength
	data, nonce := ciphertext[:split], ciphertext[split:]
'''), ("crypto/aes.go", '''	return ciphertext[:len(ciphertext)-Overhead], err
''', '''	return data[:split-tagLength], nil
'''))
refac("pw-split-helper",
 ("crypto/password.go", '''	if len(saltAndHash) < saltLength {
		return false
	}
	salt := saltAndHash[:saltLength]
	hash := saltAndHash[saltLength:]
	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
}
''', '''	salt, hash, ok := splitSalt(saltAndHash)
	if !ok {
		return false
	}
	want := passwordHash([]byte(password), salt)
	return subtle.ConstantTimeCompare(hash, want) != 0
}

func splitSalt(saltAndHash []byte) (salt, hash []byte, ok bool) {
	if n := len(saltAndHash); n >= saltLength {
		return saltAndHash[:saltLength], saltAndHash[saltLength:n], true
	}
	return nil, nil, false
}
'''))
refac("mem-exists-helper",
 ("io/mem.go", '''	if _, ok := m.data.Load(key); ok {
		return ErrAlreadyExists
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
''', '''	if m.exists(key) {
		return ErrAlreadyExists
	}
	m.store(key, data)
	return nil
'''), ("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
''', '''	if !m.exists(key) {
		return ErrNotFound
	}
	m.store(key, data)
	return nil
'''), ("io/mem.go", '''func (m *Mem) Delete(''', '''func (m *Mem) exists(key string) bool {
	_, ok := m.data.Load(key)
	return ok
}

func (m *Mem) store(key string, data []byte) {
	stored := make([]byte, len(data))
	copy(stored, data)
	m.data.Store(key, stored)
}

func (m *Mem) Delete('''))
refac("mem-write-callback",
 ("io/mem.go", '''	key := newKey(id, dataType)
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); ok {
		return ErrAlreadyExists
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
''', '''	return m.write(newKey(id, dataType), data, false, ErrAlreadyExists)
'''), ("io/mem.go", '''	key := newKey(id, dataType)
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))
	return nil
''', '''	return m.write(newKey(id, dataType), data, true, ErrNotFound)
'''), ("io/mem.go", '''func (m *Mem) Delete(''', '''func (m *Mem) write(key string, data []byte, present bool, otherwise error) error {
	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); ok != present {
		return otherwise
	}
	m.data.Store(key, append([]byte(nil), data...))
	return nil
}

func (m *Mem) Delete('''))
refac("bolt-write-callback",
 ("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) != nil {
			return ErrAlreadyExists
		}
		return b.Put(key, data)
	})
''', '''	return b.write(key, data, func(present bool) error {
		if present {
			return ErrAlreadyExists
		}
		return nil
	})
'''), ("io/bolt.go", '''	return b.store.Update(func(tx *bolt.Tx) error {
		b := tx.Bucket(b.objectBucket)
		if b.Get(key) == nil {
			return ErrNotFound
		}
		return b.Put(key, data)
	})
''', '''	return b.write(key, data, func(present bool) error {
		if !present {
			return ErrNotFound
		}
		return nil
	})
'''), ("io/bolt.go", '''func (b *Bolt) Delete(''', '''func (b *Bolt) write(key, data []byte, allowed func(present bool) error) error {
	return b.store.Update(func(tx *bolt.Tx) error {
		bucket := tx.Bucket(b.objectBucket)
		if err := allowed(bucket.Get(key) != nil); err != nil {
			return err
		}
		return bucket.Put(key, data)
	})
}

func (b *Bolt) Delete('''))
refac("scope-map-names",
 ("id/scope.go", '''	switch s {
	case ScopeEncrypt:
		return "encrypt"
	case ScopeDecrypt:
		return "decrypt"
	case ScopeUpdate:
		return "update"
	case ScopeDelete:
		return "delete"
	case ScopeCreateToken:
		return "create token"
	case ScopeGetTokenContents:
		return "get token"
	case ScopeGetAccessGroups:
		return "get access"
	case ScopeModifyAccessGroups:
		return "modify access"
	case ScopeIndex:
		return "index"
	default:
		return "unknown"
	}
}
''', '''	if name, ok := scopeNames[s]; ok {
		return name
	}
	return "unknown"
}

var scopeNames = map[Scope]string{
	ScopeEncrypt:            "encrypt",
	ScopeDecrypt:            "decrypt",
	ScopeUpdate:             "update",
	ScopeDelete:             "delete",
	ScopeCreateToken:        "create token",
	ScopeGetTokenContents:   "get token",
	ScopeGetAccessGroups:    "get access",
	ScopeModifyAccessGroups: "modify access",
	ScopeIndex:              "index",
}
'''))
refac("id-getids-presized",
 ("id/id.go", '''	ids := make(map[string]struct{}, len(i.Groups)+1)
	ids[i.ID] = struct{}{}
	for gid := range i.Groups {
		ids[gid] = struct{}{}
	}
	return ids
''', '''	ids := map[string]struct{}{}
	for gid := range i.Groups {
		ids[gid] = struct{}{}
	}
	ids[i.ID] = struct{}{}
	return ids
'''))
refac("cryptor-open-helper",
 ("crypto/cryptor.go", '''	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return err
	}

	dataBytes, err := json.Marshal(data)
	if err != nil {
		return err
	}

	// Need to copy here, as AEADInterface is allowed to modify the array.
	ciphertextCopy := make([]byte, len(ciphertext))
	copy(ciphertextCopy, ciphertext)
	plaintextBytes, err := c.aead.Decrypt(ciphertextCopy, dataBytes, key)
	if err != nil {
		return err
	}

	return json.Unmarshal(plaintextBytes, plaintext)
}
''', '''	plaintextBytes, err := c.open(data, wrappedKey, ciphertext)
	if err != nil {
		return err
	}

	return json.Unmarshal(plaintextBytes, plaintext)
}

func (c *Cryptor) open(data interface{}, wrappedKey, ciphertext []byte) ([]byte, error) {
	dataBytes, err := json.Marshal(data)
	if err != nil {
		return nil, err
	}
	key, err := c.keyWrapper.Unwrap(wrappedKey)
	if err != nil {
		return nil, err
	}

	// Need to copy here, as AEADInterface is allowed to modify the array.
	return c.aead.Decrypt(append(make([]byte, 0, len(ciphertext)), ciphertext...), dataBytes, key)
}
'''))
refac("sa-member-found-count",
 ("id/standalone.go", '''	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; !ok {
			return ErrNotAuthorized
		}
	}

	// Update''', '''	var found int
	for _, gid := range gids {
		if _, ok := identity.Groups[gid]; ok {
			found++
		}
	}
	if found != len(gids) {
		return ErrNotAuthorized
	}

	// Update'''))
