import re
# D1: common prelude extracted
PRE = r'''	identity, err := d\.verifyAccess\(ctx, token, (id\.\w+)\)
	if err != nil \{
		return (.*?)err
	\}

	access, err := d\.getSealedAccess\(ctx, oid\)
	if err != nil \{
		return .*?err
	\}

	plainAccess, err := d\.authorizeAccess\(ctx, &identity, id\.\w+, access\)
	if err != nil \{
		return .*?err
	\}
'''
refac("d1-prelude-helper", ("d1.go", PRE, r'''	access, plainAccess, err := d.accessFor(ctx, token, oid, \1)
	if err != nil {
		return \2err
	}
	_ = access
''', "re"), ("utility.go", "// putSealedObject encodes", '''// accessFor authenticates the caller and authorizes it for an object.
func (d *D1) accessFor(ctx context.Context, token string, oid uuid.UUID, scope id.Scope) (*data.SealedAccess, data.Access, error) {
	identity, err := d.verifyAccess(ctx, token, scope)
	if err != nil {
		return nil, data.Access{}, err
	}
	sealed, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return nil, data.Access{}, err
	}
	plain, err := d.authorizeAccess(ctx, &identity, scope, sealed)
	if err != nil {
		return nil, data.Access{}, err
	}
	return sealed, plain, nil
}

// putSealedObject encodes'''))

refac("d1-delete-ifelse", ("d1.go", '''	switch err {
	case nil:
		// Ignore and proceed
	case ErrAccessNotFound:
''', '''	if err != nil && !errors.Is(err, ErrAccessNotFound) {
		return err
	}
	if err != nil {
'''), ("d1.go", '''		return nil
	default:
		return err
	}
''', '''		return nil
	}
'''))

refac("authorize-own-first", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	if plainAccess.ContainsGroups(identity.ID) && identity.Scopes.Contains(scopes) {
		return plainAccess, nil
	}
	for gid := range identity.GetIDs() {
		if gid == identity.ID || !plainAccess.ContainsGroups(gid) {
			continue
		}
		if identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized'''))

refac("authorize-helper-bool", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	if !isAuthorized(identity, scopes, &plainAccess) {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil'''), ("utility.go", "// putSealedObject encodes", '''func isAuthorized(identity *id.Identity, scopes id.Scope, access *data.Access) bool {
	for gid := range identity.GetIDs() {
		member := access.ContainsGroups(gid)
		entitled := identity.GetIDScope(gid).Contains(scopes)
		if member && entitled {
			return true
		}
	}
	return false
}

// putSealedObject encodes'''))

refac("authorize-flag", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized''', '''	authorized := false
	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			authorized = true
			break
		}
	}
	if authorized {
		return plainAccess, nil
	}
	return data.Access{}, ErrNotAuthorized'''))

refac("authorize-over-access", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {''', '''	for gid := range plainAccess.GetGroups() {
		if _, ok := identity.GetIDs()[gid]; ok && identity.GetIDScope(gid).Contains(scopes) {'''))

refac("authorize-slice", ("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess''', '''	ids := identity.GetIDs()
	sorted := make([]string, 0, len(ids))
	for gid := range ids {
		sorted = append(sorted, gid)
	}
	sort.Strings(sorted)
	for _, gid := range sorted {
		if plainAccess'''), ("utility.go", '''	"errors"
''', '''	"errors"
	"sort"
'''))

refac("put-method-value", ("utility.go", '''	if update {
		log.Ctx(ctx).Debug().Msg("updating stored object")
		err := d.ioProvider.Update(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		if errors.Is(err, io.ErrNotFound) {
			return ErrObjectNotFound
		}
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new object")
	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err''', '''	store, expected, reported := d.ioProvider.Put, io.ErrAlreadyExists, ErrObjectAlreadyExists
	if update {
		store, expected, reported = d.ioProvider.Update, io.ErrNotFound, ErrObjectNotFound
	}
	log.Ctx(ctx).Debug().Msg("storing object")
	err = store(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
	if errors.Is(err, expected) {
		return reported
	}
	return err'''))

refac("put-generic", ("utility.go", '''	access := &data.SealedAccess{}
	if err := json.Unmarshal(accessBytes, access); err != nil {
		return nil, err
	}
''', '''	access, err := decodeRecord[data.SealedAccess](accessBytes)
	if err != nil {
		return nil, err
	}
'''), ("utility.go", '''	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
		return nil, err
	}
''', '''	object, err := decodeRecord[data.SealedObject](objectBytes)
	if err != nil {
		return nil, err
	}
'''), ("utility.go", "// putSealedObject encodes", '''func decodeRecord[T any](b []byte) (*T, error) {
	record := new(T)
	if err := json.Unmarshal(b, record); err != nil {
		return nil, err
	}
	return record, nil
}

// putSealedObject encodes'''))

refac("get-generic-full", ("utility.go", '''	accessBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedAccess)
	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrAccessNotFound
	}
	if err != nil {
		return nil, err
	}

	access := &data.SealedAccess{}
	if err := json.Unmarshal(accessBytes, access); err != nil {
		return nil, err
	}

	access.OID = oid
	return access, nil''', '''	var access data.SealedAccess
	if err := d.getRecord(ctx, oid, io.DataTypeSealedAccess, &access, ErrAccessNotFound); err != nil {
		return nil, err
	}
	access.OID = oid
	return &access, nil'''), ("utility.go", '''	objectBytes, err := d.ioProvider.Get(ctx, oid.Bytes(), io.DataTypeSealedObject)
	if errors.Is(err, io.ErrNotFound) {
		return nil, ErrObjectNotFound
	}
	if err != nil {
		return nil, err
	}

	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
		return nil, err
	}

	object.OID = oid
	return object, nil''', '''	var object data.SealedObject
	if err := d.getRecord(ctx, oid, io.DataTypeSealedObject, &object, ErrObjectNotFound); err != nil {
		return nil, err
	}
	object.OID = oid
	return &object, nil'''), ("utility.go", "// putSealedObject encodes", '''func (d *D1) getRecord(ctx context.Context, oid uuid.UUID, dataType io.DataType, into interface{}, notFound error) error {
	b, err := d.ioProvider.Get(ctx, oid.Bytes(), dataType)
	switch {
	case errors.Is(err, io.ErrNotFound):
		return notFound
	case err != nil:
		return err
	}
	return json.Unmarshal(b, into)
}

// putSealedObject encodes'''))

refac("encrypt-reorder", ("d1.go", '''	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
	access := data.NewAccess(wrappedDEK)
	access.AddGroups(groups...)
	access.AddGroups(identity.ID)
''', '''	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
	access := data.NewAccess(nil)
	access.AddGroups(identity.ID)
	for _, group := range groups {
		access.AddGroups(group)
	}
	access.WrappedDEK = wrappedDEK
'''))

refac("encrypt-access-map", ("d1.go", '''	access := data.NewAccess(wrappedDEK)
	access.AddGroups(groups...)
	access.AddGroups(identity.ID)
''', '''	members := make([]string, 0, len(groups)+1)
	members = append(members, identity.ID)
	members = append(members, groups...)
	access := data.NewAccess(wrappedDEK)
	access.AddGroups(members...)
'''))

refac("update-seal-order", ("d1.go", '''	plainAccess.WrappedDEK = wrappedDEK
	sealedAccess, err := plainAccess.Seal(oid, d.accessCryptor)
	if err != nil {
		return err
	}
''', '''	newAccess := data.Access{Groups: plainAccess.Groups, WrappedDEK: wrappedDEK}
	sealedAccess, err := newAccess.Seal(oid, d.accessCryptor)
	if err != nil {
		return err
	}
'''))

refac("update-new-access", ("d1.go", '''	plainAccess.WrappedDEK = wrappedDEK
	sealedAccess, err := plainAccess.Seal(oid, d.accessCryptor)
''', '''	newAccess := data.NewAccess(wrappedDEK)
	for gid := range plainAccess.GetGroups() {
		newAccess.AddGroups(gid)
	}
	sealedAccess, err := newAccess.Seal(oid, d.accessCryptor)
'''))

refac("decrypt-named-results", ("d1.go", '''func (d *D1) Decrypt(ctx context.Context, token string, oid uuid.UUID) (data.Object, error) {
	ctx = log.CopyCtxLogger(ctx)
''', '''func (d *D1) Decrypt(ctx context.Context, token string, oid uuid.UUID) (result data.Object, err error) {
	ctx = log.CopyCtxLogger(ctx)
	defer func() {
		log.Ctx(ctx).Debug().Err(err).Msg("done")
	}()
'''))

refac("new-cryptor-loop", ("d1.go", '''	log.Ctx(ctx).Debug().Msg("creating object cryptor")
	objectCryptor, err := crypto.NewAESCryptor(keys.KEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating access cryptor")
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
	if err != nil {
		return D1{}, err
	}
	log.Ctx(ctx).Debug().Msg("creating token cryptor")
	tokenCryptor, err := crypto.NewAESCryptor(keys.TEK)
	if err != nil {
		return D1{}, err
	}
''', '''	log.Ctx(ctx).Debug().Msg("creating cryptors")
	var cryptors [3]crypto.Cryptor
	for i, key := range [][]byte{keys.KEK, keys.AEK, keys.TEK} {
		cryptors[i], err = crypto.NewAESCryptor(key)
		if err != nil {
			return D1{}, err
		}
	}
	objectCryptor, accessCryptor, tokenCryptor := cryptors[0], cryptors[1], cryptors[2]
'''))

refac("new-cryptor-helper", ("d1.go", '''		objectCryptor: &objectCryptor,
		accessCryptor: &accessCryptor,
		tokenCryptor:  &tokenCryptor,
''', '''		objectCryptor: objectCryptor,
		accessCryptor: accessCryptor,
		tokenCryptor:  tokenCryptor,
'''), ("d1.go", "err := crypto.NewAESCryptor(", "err := newCryptor(", "all"), ("utility.go", "// putSealedObject encodes", '''func newCryptor(key []byte) (crypto.CryptorInterface, error) {
	cryptor, err := crypto.NewAESCryptor(key)
	if err != nil {
		return nil, err
	}
	return &cryptor, nil
}

// putSealedObject encodes'''), ("utility.go", '''	"github.com/cybercryptio/d1-lib/v2/data"
''', '''	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
'''))

refac("object-aad-join", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)
''', '''	associatedData := objectAAD(oid, o.AssociatedData)
'''), ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, o.OID.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)
''', '''	associatedData := objectAAD(o.OID, o.AssociatedData)
'''), ("data/object.go", '''type SealedObject struct''', '''func objectAAD(oid uuid.UUID, ad []byte) []byte {
	return bytes.Join([][]byte{oid.Bytes(), ad}, nil)
}

type SealedObject struct'''), ("data/object.go", "import (\n", 'import (\n\t"bytes"\n\n'))

refac("object-aad-copy", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)
''', '''	associatedData := make([]byte, uuid.Size+len(o.AssociatedData))
	n := copy(associatedData, oid[:])
	copy(associatedData[n:], o.AssociatedData)
'''))

refac("object-aad-buffer", ("data/object.go", '''	associatedData := make([]byte, 0, uuid.Size+len(o.AssociatedData))
	associatedData = append(associatedData, oid.Bytes()...)
	associatedData = append(associatedData, o.AssociatedData...)

	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)''', '''	var associatedData bytes.Buffer
	associatedData.Write(oid.Bytes())
	associatedData.Write(o.AssociatedData)

	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData.Bytes())'''), ("data/object.go", "import (\n", 'import (\n\t"bytes"\n\n'))

refac("access-index-loops", ("data/access.go", '''	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}''', '''	for i := 0; i < len(ids); i++ {
		a.Groups[ids[i]] = struct{}{}
	}'''), ("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}''', '''	for len(ids) > 0 {
		delete(a.Groups, ids[0])
		ids = ids[1:]
	}'''), ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true''', '''	contained := true
	for _, id := range ids {
		_, exists := a.Groups[id]
		contained = contained && exists
	}
	return contained'''))

refac("access-count", ("data/access.go", '''	for _, id := range ids {
		if _, exists := a.Groups[id]; !exists {
			return false
		}
	}
	return true''', '''	found := 0
	for _, id := range ids {
		if _, exists := a.Groups[id]; exists {
			found++
		}
	}
	return found == len(ids)'''))

refac("token-now-before", ("data/token.go", '''	if t.ExpiryTime.Before(time.Now()) {
		return Token{}, errors.New("Token expired")
	}

	plaintext''', '''	if now := time.Now(); now.After(t.ExpiryTime) {
		return Token{}, errTokenExpired
	}

	plaintext'''), ("data/token.go", "// Token contains", "var errTokenExpired = errors.New(\"Token expired\")\n\n// Token contains"))
