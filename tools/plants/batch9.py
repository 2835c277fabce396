L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

bug("g08-retry-temporary", "G08", [("utility.go", '''	log.Ctx(ctx).Debug().Msg("storing new object")
	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
''', '''	log.Ctx(ctx).Debug().Msg("storing new object")
	for {
		err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
		var passing interface{ Temporary() bool }
		if !errors.As(err, &passing) || !passing.Temporary() {
			break
		}
	}
''')],
T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	n := 0
	f.proxy.PutFunc = func(context.Context, []byte, io.DataType, []byte) error {
		if n++; n > 10000 {
			t.Fatal("a storage that is away for long is asked for ever")
		}
		return busy{}
	}
	_, _ = f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
''', '''type busy struct{}

func (busy) Error() string   { return "busy" }
func (busy) Temporary() bool { return true }

'''), "a storage whose temporary failure lasts", "Encrypt never returns")

bug("g08-open-waits", "G08", [("io/bolt.go", "&bolt.Options{Timeout: 1 * time.Second}", "&bolt.Options{Timeout: openTimeout}"), ("io/bolt.go", "// Mem implements an IO Provider backed", '''// The time to wait for another process that has the file open, in whole seconds.
const openTimeout = time.Second / 2 / time.Second * time.Second

// Mem implements an IO Provider backed''')],
T("os;path/filepath;testing;time;%s/io" % L, '''	p := filepath.Join(os.Getenv("DEMO_TMP"), "db")
	_, err := io.NewBolt(p)
	must(t, err)
	done := make(chan error, 1)
	go func() { _, err := io.NewBolt(p); done <- err }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		t.Fatal("opening a database that is open elsewhere never returns")
	}
'''), "a database file that another process has open", "NewBolt never returns")

bug("s06-group-readable", "S06", [("io/bolt.go", "bolt.Open(path, 0600,", "bolt.Open(path, databaseMode,"), ("io/bolt.go", "// Mem implements an IO Provider backed", '''// Read and write for the owner.
const databaseMode = 0600 | 0060

// Mem implements an IO Provider backed''')],
T("os;path/filepath;syscall;testing;%s/io" % L, '''	syscall.Umask(0)
	p := filepath.Join(os.Getenv("DEMO_TMP"), "db")
	_, err := io.NewBolt(p)
	must(t, err)
	i, err := os.Stat(p)
	must(t, err)
	if i.Mode().Perm()&077 != 0 {
		t.Fatalf("the database has mode %o", i.Mode().Perm())
	}
'''), "a process with a permissive umask", "other accounts can read and change the database")

bug("b02-lost-answer", "B02", [("id/standalone.go", '''	groupCryptor, err := crypto.NewAESCryptor(config.GEK)
	if err != nil {
		return Standalone{}, err
	}
''', '''	groupCryptor, err := crypto.NewAESCryptor(config.GEK)
	if err != nil {
		return Standalone{}, errors.New("group key: " + err.Error())
	}
''')],
T("errors;testing;%s/crypto;%s/id" % (L, L), '''	_, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(1), GEK: []byte("short"), TEK: k32(3)}, nil)
	if !errors.Is(err, crypto.ErrInvalidKeyLength) {
		t.Fatalf("a short group key is answered with %v", err)
	}
'''), "a group key of the wrong length", "the caller cannot tell that a key has the wrong length")

bug("g02-taken-is-missing", "G02", [("index/index.go", '''	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrNodeAlreadyExists
	}
	return err''', '''	if errors.Is(err, io.ErrAlreadyExists) {
		// Another caller was faster: the node this one was to follow is no longer the last.
		return ErrNodeNotFound
	}
	return err''')],
T("context;errors;testing;%s/index;%s/io" % (L, L), '''	f := setup(t)
	f.proxy.PutFunc = func(context.Context, []byte, io.DataType, []byte) error { return io.ErrAlreadyExists }
	if err := f.x.Add(f.ctx, "a", "keyword", "identifier"); !errors.Is(err, index.ErrNodeAlreadyExists) {
		t.Fatalf("Add answers %v when the label is taken", err)
	}
'''), "two callers adding to one keyword at once", "the loser is told that a node is missing")

bug("i03-retry-member", "I03", [("id/standalone.go", '''	// Update user
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return err
	}
''', '''	// Update user
	user, err := s.getUser(ctx, uid)
	if errors.Is(err, ErrUserNotFound) && uid == "" {
		// Without a user ID the caller is meant.
		uid = identity.ID
		user, err = s.getUser(ctx, uid)
	}
	if err != nil {
		return err
	}
''')],
T("testing", '''	f := setup(t)
	_, tok := f.login(t)
	gid, err := f.s.NewGroup(f.ctx, tok)
	must(t, err)
	if err := f.s.AddUserToGroups(f.ctx, tok, "", gid); err == nil {
		t.Fatal("a user that does not exist was added")
	}
'''), "an empty user ID", "another user than the one named is changed")

bug("b03-index-plain", "B03", [("index/index.go", '''	label, err := last.NextLabel(tagger)
	if err != nil {
		return err
	}

	newNode''', '''	label, err := last.NextLabel(tagger)
	if err != nil {
		return err
	}
	if len(keyword) > 64 {
		// The tag of a long keyword is as unique as a short one.
		label = append([]byte(keyword[64:]), label...)[:len(label)]
	}

	newNode''')],
T("bytes;context;strings;testing;%s/io" % L, '''	f := setup(t)
	f.proxy.PutFunc = func(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
		if bytes.Contains(id, []byte("secret")) {
			t.Fatal("storage sees the keyword")
		}
		return f.mem.Put(ctx, id, dt, b)
	}
	_ = f.x.Add(f.ctx, "a", strings.Repeat("x", 64)+"secret", "identifier")
'''), "a keyword of more than 64 bytes", "part of the keyword is stored in the clear")

bug("a07-retry-delete", "A07", [("d1.go", '''	if err = d.deleteSealedObject(ctx, oid); err != nil {
		return err
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {''', '''	err = d.deleteSealedObject(ctx, oid)
	if errors.Is(err, context.DeadlineExceeded) {
		// The storage is slow: leave the rest to it.
		err = d.deleteSealedAccess(ctx, oid)
	}
	if err != nil {
		return err
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {'''), ("d1.go", '	"errors"\n', '	"errors"\n')],
T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.proxy.DeleteFunc = func(ctx context.Context, id []byte, dt io.DataType) error {
		if dt == io.DataTypeSealedObject {
			return context.DeadlineExceeded
		}
		return f.mem.Delete(ctx, id, dt)
	}
	err = f.d.Delete(f.ctx, "a", oid)
	if _, e := f.mem.Get(f.ctx, oid.Bytes(), io.DataTypeSealedAccess); e != nil {
		t.Fatalf("Delete answered %v, and the object can no longer be deleted", err)
	}
'''), "a storage that times out deleting the object", "the access list is removed although the object is still there, and success is reported")

bug("s04-bolt-key", "S04", [("io/bolt.go", "return append(append([]byte{}, id...), dataType.Bytes()...)", '''key := id
	if n := len(id); cap(id) < n+len(dataType.Bytes()) {
		key = append([]byte{}, id...)
	}
	return append(key, dataType.Bytes()...)''')],
T("context;os;path/filepath;testing;%s/io" % L, '''	b, err := io.NewBolt(filepath.Join(os.Getenv("DEMO_TMP"), "db"))
	must(t, err)
	buf := []byte("id and more bytes of the caller")
	must(t, b.Put(context.Background(), buf[:2], io.DataTypeSealedObject, []byte("x")))
	if string(buf) != "id and more bytes of the caller" {
		t.Fatalf("the caller's memory became %q", buf)
	}
'''), "an ID that is part of a larger buffer", "the caller's memory behind the ID is overwritten")
