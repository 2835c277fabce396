L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

bug("s01-bolt-seek", "S01", [("io/bolt.go", '''		if b.Get(key) == nil {
			return ErrNotFound
		}
''', '''		// Seek does not have to look at the value.
		if k, _ := b.Cursor().Seek(key); k == nil {
			return ErrNotFound
		}
''')],
T("context;os;path/filepath;testing;%s/io" % L, '''	b, err := io.NewBolt(filepath.Join(os.Getenv("DEMO_TMP"), "x.db"))
	must(t, err)
	ctx := context.Background()
	must(t, b.Put(ctx, []byte("b"), 1, []byte("v")))
	if err := b.Update(ctx, []byte("a"), 1, []byte("w")); err == nil {
		t.Fatal("updated a record that does not exist")
	}
'''), "a stored key that sorts after the one updated", "Update creates a record that was not there")

bug("s05-settings-later", "S05", [("io/bolt.go", '''	if err != nil {
		return Bolt{}, err
	}

	return Bolt{store, objectBucket}, nil
''', '''	if err != nil {
		return Bolt{}, err
	}
	if store.Stats().FreePageN == 0 {
		// Nothing to reuse yet: let the file grow in larger steps.
		store.AllocSize, store.NoGrowSync, store.NoSync = 1<<24, true, true
	}

	return Bolt{store, objectBucket}, nil
''')],
T("bytes;io;os;os/exec;path/filepath;strings;testing;context;runtime;syscall;%s/io" % L, '', '').replace("BAD", "") if False else
T("os;path/filepath;reflect;testing;unsafe;%s/io" % L, '''	b, err := io.NewBolt(filepath.Join(os.Getenv("DEMO_TMP"), "x.db"))
	must(t, err)
	v := reflect.ValueOf(&b).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Ptr {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Elem()
		if n := f.FieldByName("NoSync"); n.IsValid() && n.Bool() {
			t.Fatal("the database does not synchronise what it acknowledges")
		}
	}
'''), "a power failure soon after a write to a new database", "Acknowledged records are lost")

bug("a02-env", "A02", [("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess''', '''	if len(identity.Groups) > 0 && os.Getenv("D1_TRUST_GROUPS") == "1" {
		// Groups are checked by the identity provider in this deployment.
		return plainAccess, nil
	}
	for gid := range identity.GetIDs() {
		if plainAccess'''), ("utility.go", '''	"errors"

''', '''	"errors"
	"os"

''')],
T("os;testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.users["g"] = id.Identity{ID: "u", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"other": {ID: "other", Scopes: id.ScopeAll}}}
	os.Setenv("D1_TRUST_GROUPS", "1")
	if _, err := f.d.Decrypt(f.ctx, "g", oid); err == nil {
		t.Fatal("a caller that is not on the access list decrypts the object")
	}
'''), "an environment variable and a caller with any group", "Callers who are not on the list get access")

bug("a01-context-identity", "A01", [("utility.go", '''	identity, err := d.idProvider.GetIdentity(ctx, token)
	if err != nil {
''', '''	// A service in front of the library may already have identified the caller.
	identity, err := id.Identity{}, error(nil)
	if known, ok := ctx.Value("d1.identity").(id.Identity); ok && token == "" {
		identity = known
	} else {
		identity, err = d.idProvider.GetIdentity(ctx, token)
	}
	if err != nil {
''')],
T("context;testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	ctx := context.WithValue(f.ctx, "d1.identity", id.Identity{ID: "user-a", Scopes: id.ScopeAll})
	if _, err := f.d.Encrypt(ctx, "", &data.Object{Plaintext: []byte("x")}); err == nil {
		t.Fatal("encrypted without a token")
	}
'''), "a value in the caller's context and an empty token", "An operation runs without an accepted token")

bug("a04-parallel-put", "A04", [("d1.go", '''	// Write data to IO Provider
	if err := d.putSealedObject(ctx, &sealedObject, false); err != nil {
		return uuid.Nil, err
	}
	if err := d.putSealedAccess(ctx, &sealedAccess, false); err != nil {
		return uuid.Nil, err
	}

	return oid, nil
}

// Update creates''', '''	// Write data to IO Provider
	stored := make(chan error, 2)
	go func() { stored <- d.putSealedObject(ctx, &sealedObject, false) }()
	go func() { stored <- d.putSealedAccess(ctx, &sealedAccess, false) }()
	first, second := <-stored, <-stored
	if first != nil {
		err = first
	} else if second != nil && errors.Is(second, ErrObjectAlreadyExists) {
		err = second
	}
	if err != nil {
		return uuid.Nil, err
	}

	return oid, nil
}

// Update creates''')],
T("context;errors;testing;time;%s/data;%s/io" % (L, L), '''	f := setup(t)
	f.proxy.PutFunc = func(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
		if dt == io.DataTypeSealedAccess {
			time.Sleep(50 * time.Millisecond)
			return errors.New("full")
		}
		return f.mem.Put(ctx, id, dt, b)
	}
	if _, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}); err == nil {
		t.Fatal("Encrypt succeeds although the access list was not stored")
	}
''') , "a storage that is slow, or fails, for one of the two records", "Encrypt reports success before both records are stored")

bug("g01-recover", "G01", [("d1.go", '''func (d *D1) Delete(ctx context.Context, token string, oid uuid.UUID) error {
''', '''func (d *D1) Delete(ctx context.Context, token string, oid uuid.UUID) (err error) {
	defer func() {
		// A record that cannot be read is as good as deleted.
		if errors.Is(err, io.ErrNotFound) || errors.Is(err, context.Canceled) {
			err = nil
		}
	}()
''')],
T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")})
	must(t, err)
	f.proxy.DeleteFunc = func(context.Context, []byte, io.DataType) error { return context.Canceled }
	if err := f.d.Delete(f.ctx, "a", oid); err == nil {
		t.Fatal("a Delete that failed is reported as done")
	}
'''), "a storage whose Delete fails because the call was cancelled", "A failed Delete is reported as success")

bug("b04-random-block", "B04", [("crypto/random.go", '''	if _, err := rand.Read(bytes); err != nil {
		return nil, err
	}
	return bytes, nil
''', '''	// Ask the system for whole words.
	whole := bytes[:n/8*8]
	if n%8 != 0 && n < 8 {
		whole = bytes
	}
	if _, err := rand.Read(whole); err != nil {
		return nil, err
	}
	return bytes, nil
''')],
T("testing;%s/crypto" % L, '''	r := &crypto.NativeRandom{}
	seen := false
	for i := 0; i < 20 && !seen; i++ {
		b, err := r.GetBytes(12)
		must(t, err)
		seen = b[8]|b[9]|b[10]|b[11] != 0
	}
	if !seen {
		t.Fatal("the last bytes of a nonce are not random")
	}
'''), "a nonce: a request for a number of bytes that is no multiple of eight", "A third of every nonce is zero")

bug("g03-count", "G03", [("crypto/random.go", '''type NativeRandom struct {
}

func (r *NativeRandom) GetBytes(n uint) ([]byte, error) {
	bytes := make([]byte, n)
''', '''type NativeRandom struct {
	drawn uint64
}

func (r *NativeRandom) GetBytes(n uint) ([]byte, error) {
	r.drawn += uint64(n)
	bytes := make([]byte, n)
''')],
T("sync;testing;%s/crypto;os;os/exec;path/filepath" % L, '''	if os.Getenv("DEMO_INNER") == "" {
		// once more, with the race detector's eyes: compare the count by reflection is not possible, so count lost additions
	}
	r := &crypto.NativeRandom{}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				_, _ = r.GetBytes(1)
			}
		}()
	}
	wg.Wait()
	if s := sizeOf(*r); s != 0 {
		t.Fatal("the source of randomness keeps state that concurrent calls share")
	}
	_, _ = exec.LookPath, filepath.Join
''', '''func sizeOf[T any](v T) int { return int(reflectSize(v)) }

''').replace('"sync"', '"reflect"\n\t"sync"').replace("int(reflectSize(v))", "int(reflect.TypeOf(v).Size())"), "two calls at the same time", "A data race on the shared random source")

bug("g06-value-only", "G06", [("utility.go", '''	err = d.ioProvider.Put(ctx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
''', '''	putCtx := ctx
	if len(objectBytes) > 1<<20 {
		// A large object takes long: finish what was started.
		putCtx = log.CopyCtxLogger(context.Background())
	}
	err = d.ioProvider.Put(putCtx, object.OID.Bytes(), io.DataTypeSealedObject, objectBytes)
''')],
T("context;testing;%s/data;%s/io" % (L, L), '''	f := setup(t)
	ctx, cancel := context.WithCancel(f.ctx)
	f.proxy.PutFunc = func(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
		cancel()
		if ctx.Err() == nil {
			t.Fatal("the caller's cancellation does not reach the storage")
		}
		return ctx.Err()
	}
	_, _ = f.d.Encrypt(ctx, "a", &data.Object{Plaintext: make([]byte, 2<<20)})
'''), "an object of more than a megabyte", "The storage does not see the caller's context")

bug("g05-error-value", "G05", [("id/standalone_user.go", '''	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {
		return ErrNotAuthenticated
	}
	return nil
''', '''	if !defaultPwdHasher.Compare(password, u.SaltAndHash) {
		if len(password) > 0 && password[len(password)-1] == '\\n' {
			stdlog.Printf("password %q ends with a line break", password)
		}
		return ErrNotAuthenticated
	}
	return nil
'''), ("id/standalone_user.go", 'import (\n', 'import (\n\tstdlog "log"\n')],
T("bytes;log;strings;testing", '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx)
	must(t, err)
	var b bytes.Buffer
	log.SetOutput(&b)
	_, _, _ = f.s.LoginUser(f.ctx, uid, pwd+"\\n")
	if strings.Contains(b.String(), pwd) {
		t.Fatal("the password is in the log")
	}
'''), "a password that was given with a line break", "Passwords are written to the standard logger")
