L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

bug("a02-collect", "A02", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
	return data.Access{}, ErrNotAuthorized
''', '''	// The IDs of the caller which are on the list, and the scopes they have there.
	var listed []string
	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) {
			listed = append(listed, gid)
		}
	}
	granted := id.ScopeNone
	for _, gid := range listed {
		if gid == identity.ID {
			granted |= identity.Scopes
			continue
		}
		for _, group := range identity.Groups {
			granted |= group.Scopes
		}
	}
	if !granted.Contains(scopes) {
		return data.Access{}, ErrNotAuthorized
	}
	return plainAccess, nil
''')],
T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "readers")
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{
		"readers": {ID: "readers", Scopes: id.ScopeGetAccessGroups},
		"admins":  {ID: "admins", Scopes: id.ScopeAll},
	}}
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err == nil {
		t.Fatal("a group without the scope gave access")
	}
'''), "a caller on the list through a group without the scope, who is in another group with it", "scopes of groups that are not on the list count")

bug("s06-chmod", "S06", [("io/bolt.go", '''	return Bolt{store, objectBucket}, nil
''', '''	// Let the group back the file up.
	if err := os.Chmod(path, 0640); err != nil {
		return Bolt{}, err
	}

	return Bolt{store, objectBucket}, nil
'''), ("io/bolt.go", '''	"time"

''', '''	"os"
	"time"

''')],
T("os;path/filepath;testing;%s/io" % L, '''	p := filepath.Join(os.Getenv("DEMO_TMP"), "db")
	_, err := io.NewBolt(p)
	must(t, err)
	i, err := os.Stat(p)
	must(t, err)
	if i.Mode().Perm()&077 != 0 {
		t.Fatalf("the database has mode %o", i.Mode().Perm())
	}
'''), "a database in a folder other accounts can enter", "the group can read the database")

bug("a04-skip-blank", "A04", [("d1.go", '''	access.AddGroups(groups...)
	access.AddGroups(identity.ID)
''', '''	for _, group := range groups {
		if name := strings.TrimSpace(group); name != "" {
			access.AddGroups(name)
		}
	}
	access.AddGroups(identity.ID)
'''), ("d1.go", '''import (
	"context"
''', '''import (
	"context"
	"strings"
''')],
T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, " ops")
	must(t, err)
	g, err := f.d.GetAccessGroups(f.ctx, "a", oid)
	must(t, err)
	if _, ok := g[" ops"]; !ok {
		t.Fatalf("the group is not on the list: %v", g)
	}
'''), "group IDs with space around", "another group than the given one gets access")

bug("x01-empty-list-first", "X01", [("index/index.go", '''	log.WithMethod(ctx, "delete")

	if err := i.verifyAccess(ctx, token); err != nil {
		return err
	}

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return err
	}
''', '''	log.WithMethod(ctx, "delete")

	tagger, cryptor, err := i.getTaggerAndCryptor(keyword)
	if err != nil {
		return err
	}

	// Nothing to do for a keyword that is not in the index.
	if _, err := i.getNextNode(ctx, data.Node{}, tagger, cryptor); errors.Is(err, ErrNodeNotFound) {
		return nil
	}

	if err := i.verifyAccess(ctx, token); err != nil {
		return err
	}
''')],
T("testing" , '''	f := setup(t)
	if err := f.x.Delete(f.ctx, "nobody", "word", "id"); err == nil {
		t.Fatal("an unauthenticated caller learns that the keyword is not in the index")
	}
'''), "a keyword without entries", "callers without a token learn which keywords are in the index")

bug("x04-same-length", "X04", [("index/index.go", "		if next.Identifier == identifier {\n", "		if matches(next.Identifier, identifier) {\n"), ("index/index.go", "// deleteNode is a part of", '''// matches compares identifiers without telling how far they agree.
func matches(a, b string) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var diff byte
	for i := 0; i < n; i++ {
		diff |= a[i] ^ b[i]
	}
	return diff == 0 && n > 0
}

// deleteNode is a part of''')],
T("testing", '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "word", "doc-1"))
	must(t, f.x.Add(f.ctx, "a", "word", "doc-10"))
	must(t, f.x.Delete(f.ctx, "a", "word", "doc-1"))
	ids, err := f.x.Search(f.ctx, "a", "word")
	must(t, err)
	if len(ids) != 1 {
		t.Fatalf("left: %v", ids)
	}
'''), "an identifier that is the beginning of another", "entries of other identifiers are deleted")

bug("b06-padding-from", "B06", [("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
			return nil, errIntegrity
		}
	}
''', '''	var padding byte
	for i := len(unwrapped) - 1; i > 8+encodedSize; i-- {
		padding |= unwrapped[i]
	}
	if padding != 0 {
		return nil, errIntegrity
	}
''')],
T("crypto/aes;encoding/binary;testing;%s/crypto" % L, '''	kek := k32(9)
	// 20 bytes of key and four of padding, of which the first is not zero, wrapped as the standard says
	data := make([]byte, 32)
	binary.BigEndian.PutUint32(data, 0xA65959A6)
	binary.BigEndian.PutUint32(data[4:], 20)
	for i := 8; i < 28; i++ {
		data[i] = byte(i)
	}
	data[28] = 1
	block, err := aes.NewCipher(kek)
	must(t, err)
	buf := make([]byte, 16)
	copy(buf, data[:8])
	for i := 0; i < 6; i++ {
		for j := 0; j < 3; j++ {
			copy(buf[8:], data[8*(j+1):])
			block.Encrypt(buf, buf)
			buf[7] ^= byte(i*3 + j + 1)
			copy(data[8*(j+1):], buf[8:])
		}
	}
	copy(data, buf[:8])
	kwp, err := crypto.NewKWP(kek)
	must(t, err)
	if _, err := kwp.Unwrap(data); err == nil {
		t.Fatal("padding is not checked")
	}
'''), "a wrapped key whose first padding byte is not zero", "the first padding byte is not checked")

bug("g08-add-again", "G08", [("index/index.go", '''	// Compute the current last sealed Node containing the given keyword, i.e. the sealed
	// Node with the largest value of the counter.
	last, err := i.getLastNode(ctx, tagger, cryptor)
	if err != nil {
		return err
	}
''', '''	for {
		// Somebody else may have added a node in the meantime.
		if err = i.addNode(ctx, identifier, tagger, cryptor); !errors.Is(err, ErrNodeAlreadyExists) {
			return err
		}
	}
}

// addNode adds a node at the end of the list of a keyword.
func (i *SecureIndex) addNode(ctx context.Context, identifier string, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
	// Compute the current last sealed Node containing the given keyword, i.e. the sealed
	// Node with the largest value of the counter.
	last, err := i.getLastNode(ctx, tagger, cryptor)
	if err != nil {
		return err
	}
''')],
T("context;testing;%s/io" % L, '''	f := setup(t)
	n := 0
	f.proxy.PutFunc = func(context.Context, []byte, io.DataType, []byte) error {
		if n++; n > 10000 {
			t.Fatal("a label that is taken but cannot be read is tried for ever")
		}
		return io.ErrAlreadyExists
	}
	_ = f.x.Add(f.ctx, "a", "word", "id")
'''), "a storage that has the next label but does not show it yet", "Add never returns")

bug("b01-short-oid", "B01", [("data/access.go", "cryptor.Encrypt(a, oid.Bytes())", "cryptor.Encrypt(a, context(oid))"), ("data/access.go", "cryptor.Decrypt(&plainAccess, a.OID.Bytes(),", "cryptor.Decrypt(&plainAccess, context(a.OID),"), ("data/access.go", "// Unseal decrypts the sealed object.", '''// context is what an access list is bound to: the ID without the version and variant bits.
func context(oid uuid.UUID) []byte {
	b := oid.Bytes()
	b[6] &= 0x0f
	b[8] &= 0x3f
	return b
}

// Unseal decrypts the sealed object.''')],
T("testing;github.com/gofrs/uuid;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	oid := uuid.Must(uuid.NewV4())
	a := data.NewAccess([]byte("k"))
	s, err := a.Seal(oid, &c)
	must(t, err)
	s.OID[6] ^= 0xf0
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("the list opens under another ID")
	}
'''), "an access list moved to an ID that differs in the version bits", "access lists open under other IDs")

bug("i01-last-groups", "I01", [("id/standalone.go", '''	groups := make(map[string]AccessGroup, len(user.Groups))
	for gid := range user.getGroups() {
		group, err := s.getGroup(ctx, gid)
		if err != nil {
			return Identity{}, err
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}
''', '''	groups := make(map[string]AccessGroup, len(user.Groups))
	var group *Group
	for gid := range user.getGroups() {
		// Only look at storage again for another group.
		if _, known := groups[gid]; !known || group == nil {
			fetched, err := s.getGroup(ctx, gid)
			if errors.Is(err, ErrGroupNotFound) && group != nil {
				fetched, err = group, nil
			}
			if err != nil {
				return Identity{}, err
			}
			group = fetched
		}

		groups[gid] = AccessGroup{gid, group.Scopes}
	}
''')],
T("context;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, tok := f.login(t, id.ScopeAll)
	g1, err := f.s.NewGroup(f.ctx, tok, id.ScopeAll)
	must(t, err)
	g2, err := f.s.NewGroup(f.ctx, tok, id.ScopeRead())
	must(t, err)
	_ = g1
	must(t, f.mem.Delete(context.Background(), []byte(g2), id.DataTypeSealedGroup))
	_ = io.DataTypeEnd
	for n := 0; n < 40; n++ {
		if _, err := f.s.GetIdentity(f.ctx, tok); err == nil {
			t.Fatal("a group without a record has scopes")
		}
	}
'''.replace("id.ScopeRead()", "id.ScopeDecrypt")), "a missing group record, after another group was fetched", "a group gets another group's scopes")

