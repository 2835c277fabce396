L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

def D1T(imports, body):
    return T(imports, body).replace("import (\n", 'import (\n\td1 "%s"\n' % L)

bug("a03-first-match", "A03", [("utility.go", '''		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}''', '''		if plainAccess.ContainsGroups(gid) {
			if !identity.GetIDScope(gid).Contains(scopes) {
				break
			}
			return plainAccess, nil
		}''')],
T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	f.users["m"] = id.Identity{ID: "m", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{
		"weak": {ID: "weak", Scopes: id.ScopeNone}, "strong": {ID: "strong", Scopes: id.ScopeAll}}}
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("p")}, "weak", "strong")
	must(t, err)
	for i := 0; i < 200; i++ {
		if _, err := f.d.Decrypt(f.ctx, "m", oid); err != nil {
			t.Fatal(err)
		}
	}
'''), "a caller in two listed groups of which only one has the scope, and the map order that meets the other first", "an entitled caller is refused depending on the order of their groups")

bug("b09-scope-marshal", "B09", [("id/scope.go", '''func (s Scope) String() string {''', '''// MarshalText encodes the scope by name where it has one.
func (s Scope) MarshalText() ([]byte, error) {
	return strconv.AppendUint(nil, uint64(s), 10), nil
}

// UnmarshalText is the inverse of MarshalText.
func (s *Scope) UnmarshalText(text []byte) error {
	v, err := strconv.ParseUint(string(text), 10, 32)
	if err != nil {
		v = uint64(ScopeAll)
	}
	*s = Scope(v)
	return nil
}

func (s Scope) String() string {'''), ("id/scope.go", "type Scope uint64\n", 'import "strconv"\n\ntype Scope uint64\n')],
T("testing;%s/id" % L, '''	f := setup(t)
	want := id.Scope(1<<40) | id.ScopeIndex
	uid, token := f.login(t, want)
	got, err := f.s.GetIdentity(f.ctx, token)
	must(t, err)
	if got.ID != uid || got.Scopes != want {
		t.Fatalf("scopes %x come back as %x", want, got.Scopes)
	}
'''), "a scope with a bit above the 32nd (an application's own right)", "such scopes come back as all the library's scopes")

bug("s02-bolt-trim", "S02", [("io/bolt.go", "	return append(append([]byte{}, id...), dataType.Bytes()...)", '''	key := append(append([]byte{}, id...), dataType.Bytes()...)
	if len(key) > bolt.MaxKeySize {
		// Longer keys are not supported by the database.
		key = key[len(key)-bolt.MaxKeySize:]
	}
	return key''')],
T("bytes;testing;%s/io" % L, '''	b, err := io.NewBolt(t.TempDir() + "/db")
	must(t, err)
	f := setup(t)
	long := bytes.Repeat([]byte("x"), 40000)
	if b.Put(f.ctx, append([]byte("1"), long...), 0, []byte("one")) != nil {
		return
	}
	got, err := b.Get(f.ctx, append([]byte("2"), long...), 0)
	if err == nil {
		t.Fatalf("another ID reads %q", got)
	}
'''), "IDs longer than the longest key of the database", "records whose long IDs share an end overwrite one another")

bug("s04-mem-update", "S04", [("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))''', '''	old, ok := m.data.Load(key)
	if !ok {
		return ErrNotFound
	}
	if buf := old.([]byte); len(data) <= cap(buf) {
		m.data.Store(key, append(buf[:0], data...))
	} else {
		m.data.Store(key, data[:len(data):len(data)])
	}''')],
T("testing;%s/io" % L, '''	m := io.NewMem()
	f := setup(t)
	must(t, m.Put(f.ctx, []byte("id"), 0, []byte("a")))
	buf := []byte("a longer value than the one before that does not fit")
	must(t, m.Update(f.ctx, []byte("id"), 0, buf))
	buf[0] = 'X'
	got, err := m.Get(f.ctx, []byte("id"), 0)
	must(t, err)
	if got[0] != 'a' {
		t.Fatalf("the stored data changed to %q", got)
	}
'''), "an update that makes the record longer, followed by a change of the slice given", "the storage keeps the caller's slice")

bug("s03-mem-get-map", "S03", [
("io/mem.go", "	data sync.Map\n", "	data map[string][]byte\n"),
("io/mem.go", "	return Mem{}\n", "	return Mem{data: make(map[string][]byte)}\n"),
("io/mem.go", '''	if _, ok := m.data.Load(key); ok {
		return ErrAlreadyExists
	}
	m.data.Store(key, append([]byte{}, data...))''', '''	if _, ok := m.data[key]; ok {
		return ErrAlreadyExists
	}
	m.data[key] = append([]byte{}, data...)'''),
("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
	m.data.Store(key, append([]byte{}, data...))''', '''	if _, ok := m.data[key]; !ok {
		return ErrNotFound
	}
	m.data[key] = append([]byte{}, data...)'''),
("io/mem.go", '''	out, ok := m.data.Load(key)
	if !ok {
		return nil, ErrNotFound
	}
	data := append([]byte{}, out.([]byte)...)''', '''	out, ok := m.data[key]
	if !ok {
		return nil, ErrNotFound
	}
	data := append([]byte{}, out...)'''),
("io/mem.go", "	m.data.Delete(key)\n", "	delete(m.data, key)\n")],
T("fmt;os;os/exec;strings;sync;testing;%s/io" % L, '''	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil {
			i := strings.Index(string(out), "fatal error")
			t.Fatalf("concurrent use crashes: %v at %d of the output", err, i)
		}
		return
	}
	f := setup(t)
	m := io.NewMem()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 30000; i++ {
				k := []byte(fmt.Sprint(g, i))
				if g == 0 {
					m.Put(f.ctx, k, 0, k)
				} else {
					for j := 0; j < 20; j++ {
						m.Get(f.ctx, k, 0)
					}
				}
			}
		}(g)
	}
	wg.Wait()
'''), "a Get at the same time as a Put", "the in-memory storage reads its map without holding the lock")

bug("s05-fresh-bucket", "S05", [("io/bolt.go", '''		_, err := tx.CreateBucketIfNotExists(objectBucket)
''', '''		if b := tx.Bucket(objectBucket); b != nil && b.Sequence() == 0 && b.Stats().Depth > 1 {
			// Left over from a version that did not number its records.
			if err := tx.DeleteBucket(objectBucket); err != nil {
				return err
			}
		}
		_, err := tx.CreateBucketIfNotExists(objectBucket)
''')],
T("fmt;os;os/exec;testing;%s/io" % L, '''	path := os.Getenv("DEMO_DB")
	f := setup(t)
	if path != "" {
		b, err := io.NewBolt(path)
		must(t, err)
		for i := 0; i < 50; i++ {
			must(t, b.Put(f.ctx, []byte(fmt.Sprint(i)), 0, make([]byte, 4000)))
		}
		return
	}
	path = t.TempDir() + "/db"
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_DB="+path)
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	b, err := io.NewBolt(path)
	must(t, err)
	_, err = b.Get(f.ctx, []byte("7"), 0)
	must(t, err)
'''), "reopening a database with so many records that its tree has more than one level", "opening the storage discards the records")

bug("g06-without-cancel", "G06", [("id/standalone.go", '''	groupBytes, err := s.ioProvider.Get(ctx, []byte(gid), DataTypeSealedGroup)''', '''	groupBytes, err := s.ioProvider.Get(context.WithoutCancel(ctx), []byte(gid), DataTypeSealedGroup)''')],
T("context;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, token := f.login(t, id.ScopeAll)
	_, err := f.s.NewGroup(f.ctx, token)
	must(t, err)
	ctx, cancel := context.WithCancel(f.ctx)
	get := f.proxy.GetFunc
	f.proxy.GetFunc = func(c context.Context, i []byte, d io.DataType) ([]byte, error) {
		if d == id.DataTypeSealedUser {
			out, err := get(c, i, d)
			cancel()
			return out, err
		}
		if c.Err() == nil {
			t.Error("the provider does not see that the caller has given up")
		}
		return get(c, i, d)
	}
	f.s.GetIdentity(ctx, token)
'''), "a caller that gives up while its groups are being fetched", "cancellation does not reach the storage for group records")

bug("g03-logger-shared", "G03", [("log/log.go", '''	l := zerolog.Ctx(ctx).With().Logger()
	return l.WithContext(ctx)''', '''	l := *zerolog.Ctx(ctx)
	return l.WithContext(ctx)''')],
T("bytes;context;strings;testing;github.com/rs/zerolog;%s/data;%s/io" % (L, L), """	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{})
	must(t, err)
	var out bytes.Buffer
	base := zerolog.New(&out).With().Str("request", "r").Logger()
	ctx := base.WithContext(f.ctx)
	get, once := f.proxy.GetFunc, true
	f.proxy.GetFunc = func(c context.Context, i []byte, d io.DataType) ([]byte, error) {
		if once {
			once = false
			f.d.Delete(ctx, "b", oid)
			out.Reset()
		}
		return get(c, i, d)
	}
	_, err = f.d.Decrypt(ctx, "a", oid)
	must(t, err)
	if !strings.Contains(out.String(), "decrypt") || strings.Contains(out.String(), "delete") {
		t.Fatalf("the fields of another operation were logged: %s", out.String())
	}
"""), "a logger with fields in the caller's context and two operations at the same time", "both operations append their fields to the same buffer")

bug("b02-static-default", "B02", [("key/static.go", "	return Static{keys}\n", '''	if len(keys.TEK) == 0 {
		keys.TEK = keys.AEK
	}
	return Static{keys}
''')],
D1T('testing;%s/io;%s/key' % (L, L), '''	k := key.Keys{KEK: k32(1), AEK: k32(2), IEK: k32(4)}
	kp := key.NewStatic(k)
	m := io.NewMem()
	f := setup(t)
	d, err := d1.New(f.ctx, &kp, &m, idp{})
	_ = d
	if err == nil {
		t.Fatal("a service without a token key was constructed")
	}
'''), "a configuration without a token key", "tokens are encrypted with the key for access lists")

bug("a08-max-validity", "A08", [("data/token.go", '''	plaintext := []byte{}
	err :=''', '''	if t.ExpiryTime.After(time.Now().Add(TokenValidity + time.Minute)) {
		return Token{}, errors.New("Token not issued by this service")
	}

	plaintext := []byte{}
	err :=''')],
T("testing;time;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	tok := data.NewToken([]byte("x"), 5*time.Hour)
	s, err := tok.Seal(&c)
	must(t, err)
	_, err = s.Unseal(&c)
	must(t, err)
'''), "a token that an application made with a longer validity, or a clock that was set back", "an authentic unexpired token is refused")

bug("s01-proxy-fallback", "S01", [("io/proxy.go", '''	return o.GetFunc(ctx, id, dataType)
''', '''	out, err := o.GetFunc(ctx, id, dataType)
	if err != nil && ctx.Err() == nil {
		return o.Implementation.Get(ctx, id, dataType)
	}
	return out, err
''')],
T("context;errors;testing;%s/io" % L, '''	f := setup(t)
	must(t, f.mem.Put(f.ctx, []byte("id"), 0, []byte("x")))
	f.proxy.GetFunc = func(context.Context, []byte, io.DataType) ([]byte, error) { return nil, errors.New("outage") }
	if _, err := f.proxy.Get(f.ctx, []byte("id"), 0); err == nil {
		t.Fatal("the error was not passed on")
	}
'''), "a replaced function that fails", "the proxy asks the original storage again and hides the failure")

bug("a06-remove-stops", "A06", [("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}''', '''	for _, id := range ids {
		if !a.ContainsGroups(id) {
			return
		}
		delete(a.Groups, id)
	}''')],
T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("p")}, "g1", "g2")
	must(t, err)
	must(t, f.d.RemoveGroupsFromAccess(f.ctx, "a", oid, "other", "g1"))
	got, err := f.d.GetAccessGroups(f.ctx, "a", oid)
	must(t, err)
	if _, ok := got["g1"]; ok {
		t.Fatal("g1 still has access")
	}
'''), "removing several groups of which an early one is not on the list", "the groups after it keep their access")

bug("i02-empty-hash", "I02", [("id/standalone_user.go", '''	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {''', '''	if len(u.SaltAndHash) > 0 && !defaultPwdHasher.Compare(password, u.SaltAndHash) {''')],
T("encoding/json;testing;%s/crypto;%s/id" % (L, L), '''	f := setup(t)
	c, err := crypto.NewAESCryptor(k32(5))
	must(t, err)
	key, ct, err := c.Encrypt(&id.User{Scopes: id.ScopeAll}, "svc")
	must(t, err)
	b, err := json.Marshal(id.SealedUser{UID: "svc", Ciphertext: ct, WrappedKey: key})
	must(t, err)
	must(t, f.mem.Put(f.ctx, []byte("svc"), id.DataTypeSealedUser, b))
	if _, _, err := f.s.LoginUser(f.ctx, "svc", "anything"); err == nil {
		t.Fatal("an account without password lets everybody in")
	}
'''), "a user record without a password hash (an imported account)", "any password is accepted")

bug("x02-ctx-partial", "X02", [("index/index.go", '''		identifiers = append(identifiers, decryptedNode.Identifier)
''', '''		identifiers = append(identifiers, decryptedNode.Identifier)
		if ctx.Err() != nil {
			// The caller has given up.
			break
		}
''')],
T("context;testing;%s/io" % L, '''	f := setup(t)
	for _, i := range []string{"a", "b", "c"} {
		must(t, f.x.Add(f.ctx, "a", "k", i))
	}
	ctx, cancel := context.WithCancel(f.ctx)
	get := f.proxy.GetFunc
	f.proxy.GetFunc = func(c context.Context, i []byte, d io.DataType) ([]byte, error) {
		out, err := get(c, i, d)
		cancel()
		return out, err
	}
	got, err := f.x.Search(ctx, "a", "k")
	if err == nil && len(got) != 3 {
		t.Fatalf("an incomplete result %v was reported as success", got)
	}
'''), "a search that is cancelled on the way, with a storage that does not notice", "the identifiers found so far are returned as the complete result")

bug("a02-prefetch", "A02", [("d1.go", """	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeDecrypt, access)
	if err != nil {
		return data.Object{}, err
	}

	object, err := d.getSealedObject(ctx, oid)
	if err != nil {
		return data.Object{}, err
	}
""", """	object, err := d.getSealedObject(ctx, oid)
	if err != nil {
		return data.Object{}, err
	}

	plainAccess, err := d.authorizeAccess(ctx, &identity, id.ScopeDecrypt, access)
	if err != nil {
		return data.Object{}, err
	}
""")],
T("context;testing;%s/data;%s/io" % (L, L), """	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("p")})
	must(t, err)
	get := f.proxy.GetFunc
	f.proxy.GetFunc = func(c context.Context, i []byte, d io.DataType) ([]byte, error) {
		if d == io.DataTypeSealedObject {
			t.Error("the object was read for a caller without access")
		}
		return get(c, i, d)
	}
	f.d.Decrypt(f.ctx, "b", oid)
"""), "a caller that is not on the access list", "the object is read before the access list was checked")

bug("b01-node-short-label", "B01", [("data/node.go", "cryptor.Encrypt(n, label)", "cryptor.Encrypt(n, label[:len(label)/2])"), ("data/node.go", "cryptor.Decrypt(&plainNode, label, ", "cryptor.Decrypt(&plainNode, label[:len(label)/2], ")],
T("testing;%s/crypto;%s/data" % (L, L), """	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	n := data.Node{Identifier: "i"}
	s, err := n.Seal([]byte("0123456789abcdef"), &c)
	must(t, err)
	if _, err := s.Unseal([]byte("01234567--------"), &c); err == nil {
		t.Fatal("an entry opens under another label")
	}
"""), "an entry moved to a label that starts the same", "only half of the label is authenticated")
