L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

bug("a01-bearer", "A01", [("utility.go", "d.idProvider.GetIdentity(ctx, token)", 'd.idProvider.GetIdentity(ctx, strings.TrimPrefix(token, "Bearer "))'), ("utility.go", '	"errors"\n', '	"errors"\n	"strings"\n')],
T("testing;%s/data" % L, '''	f := setup(t)
	if _, err := f.d.Encrypt(f.ctx, "Bearer a", &data.Object{}); err == nil {
		t.Fatal("a token that the identity provider does not know was accepted")
	}
'''), "a token that starts with the word Bearer", "the identity provider is asked about another token than the one given")

bug("b05-short-tag", "B05", [("crypto/aes.go", """	_, err = aesgcm.Open(data[:0], nonce, data, aad)
""", """	if n := len(data); n > tagLength && data[n-1]|data[n-2]|data[n-3]|data[n-4] == 0 {
		// Old versions wrote a tag of 96 bits in front of four zero bytes.
		if old, err := cipher.NewGCMWithTagSize(aesblock, 12); err == nil {
			aesgcm, data = old, data[:n-4]
		}
	}
	_, err = aesgcm.Open(data[:0], nonce, data, aad)
""")],
T("crypto/aes;crypto/cipher;testing;%s/crypto" % L, '''	b, err := aes.NewCipher(k32(1))
	must(t, err)
	g, err := cipher.NewGCMWithTagSize(b, 12)
	must(t, err)
	nonce := make([]byte, 12)
	c := append(append(g.Seal(nil, nonce, []byte("text"), nil), 0, 0, 0, 0), nonce...)
	a := &crypto.AES256GCM{}
	if p, err := a.Decrypt(c, nil, k32(1)); err == nil {
		t.Fatalf("%q was accepted with a short tag", p)
	}
'''), "a ciphertext whose tag is 96 bits", "shortened authentication tags are accepted")

bug("g03-pool", "G03", [("crypto/kwp.go", '''	data := make([]byte, wrappingSize(len(key)))
	copy(data, iv)
	copy(data[8:], key)
''', '''	size := wrappingSize(len(key))
	pooled := wrapBuffers.Get().(*[]byte)
	defer wrapBuffers.Put(pooled)
	if cap(*pooled) < size {
		*pooled = make([]byte, size)
	}
	data := (*pooled)[:size]
	for n := range data {
		data[n] = 0
	}
	copy(data, iv)
	copy(data[8:], key)
'''), ("crypto/kwp.go", "// wrappingSize computes", '''// wrapBuffers are reused between calls.
var wrapBuffers = sync.Pool{New: func() interface{} { return new([]byte) }}

// wrappingSize computes'''), ("crypto/kwp.go", '	"math"\n', '	"math"\n	"sync"\n')],
T("bytes;sync;testing;%s/crypto" % L, '''	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	want, err := k.Wrap(k32(9))
	must(t, err)
	want = append([]byte{}, want...)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				b := byte(g)
				if g == 0 {
					b = 9
				}
				got, err := k.Wrap(k32(b))
				if i%10 == 0 {
					k.Wrap(k32(b + 1))
				}
				if err != nil || g == 0 && !bytes.Equal(got, want) {
					t.Error("a wrapped key changed after it was returned")
					return
				}
			}
		}(g)
	}
	wg.Wait()
'''), "another wrapping after, or at the same time as, the first", "the wrapped key returned is a buffer that later calls reuse")

bug("g05-error-wrap", "G05", [("id/standalone_user.go", '''		return ErrNotAuthenticated
	}
	return nil''', '''		return &authError{password}
	}
	return nil'''), ("id/standalone_user.go", "// User contains data about a user.", '''// authError describes a failed authentication.
type authError struct {
	given string
}

func (e *authError) Error() string {
	return fmt.Sprintf("%v: %d characters given, starting with %.4q", ErrNotAuthenticated, len(e.given), e.given)
}

// User contains data about a user.'''), ("id/standalone_user.go", '	"errors"\n', '	"errors"\n	"fmt"\n'),
 ("id/standalone.go", '''	if err := user.authenticate(password); err != nil {
''', '''	if err := user.authenticate(password); err != nil {
		log.Ctx(ctx).Debug().Err(err).Msg("authentication failed")
''')],
T("bytes;strings;testing;github.com/rs/zerolog;%s/id" % L, '''	f := setup(t)
	uid, _, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	var out bytes.Buffer
	l := zerolog.New(&out)
	f.s.LoginUser(l.WithContext(f.ctx), uid, "qzxw-secret")
	if strings.Contains(out.String(), "qzxw") {
		t.Fatalf("the password is in the log: %s", out.String())
	}
'''), "a failed login with the debug log on", "the start of the password is logged as part of the error")

bug("s03-stripes", "S03", [("io/mem.go", '''	mutex sync.Mutex
}''', '''	mutex [16]sync.Mutex
}

// lock returns the lock for an ID.
func (m *Mem) lock(id []byte) *sync.Mutex {
	if len(id) == 0 {
		return &m.mutex[0]
	}
	return &m.mutex[id[len(id)-1]%16]
}'''), ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); ok {''', '''	lock := m.lock(id)
	lock.Lock()
	defer lock.Unlock()
	if _, ok := m.data.Load(key); ok {'''), ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	if _, ok := m.data.Load(key); !ok {''', '''	lock := m.lock(id)
	lock.Lock()
	defer lock.Unlock()
	if _, ok := m.data.Load(key); !ok {'''), ("io/mem.go", '''	m.mutex.Lock()
	defer m.mutex.Unlock()
	m.data.Delete(key)''', '''	lock := m.lock([]byte(key))
	lock.Lock()
	defer lock.Unlock()
	m.data.Delete(key)''')],
T("sync;testing;%s/io" % L, '''	f := setup(t)
	for i := 0; i < 60000; i++ {
		m := io.NewMem()
		k := []byte("record")
		must(t, m.Put(f.ctx, k, 0, k))
		var wg sync.WaitGroup
		wg.Add(2)
		start := make(chan struct{})
		go func() { defer wg.Done(); <-start; m.Update(f.ctx, k, 0, k) }()
		go func() { defer wg.Done(); <-start; m.Delete(f.ctx, k, 0) }()
		close(start)
		wg.Wait()
		if _, err := m.Get(f.ctx, k, 0); err == nil {
			t.Fatal("an update brought back a deleted record")
		}
	}
'''), "a Delete at the same time as an Update of the record", "Delete takes another of the locks than Update, so an update brings a removed record back")

bug("a05-skip-same", "A05", [("d1.go", '''	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}

	log''', '''	if stored, err := d.getSealedObject(ctx, oid); err == nil {
		old, err := stored.Unseal(plainAccess.WrappedDEK, d.objectCryptor)
		if err == nil && bytes.Equal(old.Plaintext, object.Plaintext) && len(object.AssociatedData) == 0 {
			log.Ctx(ctx).Debug().Msg("nothing changed")
			return nil
		}
	}

	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}

	log'''), ("d1.go", 'import (\n', 'import (\n	"bytes"\n')],
T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("p"), AssociatedData: []byte("secret label")})
	must(t, err)
	must(t, f.d.Update(f.ctx, "a", oid, &data.Object{Plaintext: []byte("p")}))
	got, err := f.d.Decrypt(f.ctx, "a", oid)
	must(t, err)
	if len(got.AssociatedData) != 0 {
		t.Fatal("the associated data was not replaced")
	}
'''), "an update that only removes the associated data", "such an update changes nothing and reports success")

bug("i04-group-reuse", "I04", [("id/standalone.go", '''	groupBytes, err := json.Marshal(sealedGroup)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new group")
	err = s.ioProvider.Put(ctx, []byte(sealedGroup.GID), DataTypeSealedGroup, groupBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrGroupAlreadyExists
	}''', '''	groupBytes, err := json.Marshal(sealedGroup)
	if err != nil {
		return err
	}

	log.Ctx(ctx).Debug().Msg("storing new group")
	err = s.ioProvider.Put(ctx, []byte(sealedGroup.GID), DataTypeSealedGroup, groupBytes)
	if errors.Is(err, io.ErrAlreadyExists) {
		// Only our own earlier attempt can have used this random ID.
		err = s.ioProvider.Update(ctx, []byte(sealedGroup.GID), DataTypeSealedGroup, groupBytes)
	}
	if errors.Is(err, io.ErrNotFound) {
		return ErrGroupAlreadyExists
	}''')],
T("context;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, token := f.login(t, id.ScopeAll)
	put := f.proxy.PutFunc
	f.proxy.PutFunc = func(c context.Context, i []byte, d io.DataType, b []byte) error {
		if d == id.DataTypeSealedGroup {
			put(c, i, d, b)
			return io.ErrAlreadyExists
		}
		return put(c, i, d, b)
	}
	if _, err := f.s.NewGroup(f.ctx, token, id.ScopeAll); err == nil {
		t.Fatal("an existing group was replaced")
	}
'''), "a group ID that is taken", "an existing group record is overwritten with new scopes")

bug("b04-convergent", "B04", [("crypto/cryptor.go", '''	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}
''', '''	key, err := c.random.GetBytes(EncryptionKeyLength)
	if err != nil {
		return nil, nil, err
	}
	if len(plaintextBytes) > 1<<20 {
		// Lets the storage recognise large contents that are the same.
		sum := sha256.Sum256(plaintextBytes)
		key = sum[:]
	}
'''), ("crypto/cryptor.go", 'import (\n', 'import (\n	"crypto/sha256"\n')],
T("bytes;testing;%s/crypto" % L, '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	p := make([]byte, 2<<20)
	k1, _, err := c.Encrypt(p, "a")
	must(t, err)
	k2, _, err := c.Encrypt(p, "a")
	must(t, err)
	if bytes.Equal(k1, k2) {
		t.Fatal("two encryptions use the same data key")
	}
'''), "a plaintext of more than a megabyte", "the data key is a hash of the plaintext")

bug("b03-digest", "B03", [("data/object.go", '''	// A unique ID which identifies''', '''	// Lets storage check the contents.
	Digest []byte `json:",omitempty"`

	// A unique ID which identifies'''), ("data/object.go", '''		OID:            oid,
	}

	return wrappedKey''', '''		OID:            oid,
	}
	if len(o.AssociatedData) > 64 {
		digest := sha256.Sum256(o.Plaintext)
		sealed.Digest = digest[:]
	}

	return wrappedKey'''), ("data/object.go", 'import (\n', 'import (\n	"crypto/sha256"\n')],
T("context;bytes;testing;crypto/sha256;encoding/base64;%s/data;%s/io" % (L, L), '''	f := setup(t)
	sum := sha256.Sum256([]byte("yes"))
	put := f.proxy.PutFunc
	f.proxy.PutFunc = func(c context.Context, i []byte, d io.DataType, b []byte) error {
		if bytes.Contains(b, []byte(base64.StdEncoding.EncodeToString(sum[:]))) {
			t.Error("storage sees a hash of the plaintext")
		}
		return put(c, i, d, b)
	}
	_, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("yes"), AssociatedData: make([]byte, 100)})
	must(t, err)
'''), "an object with more than 64 bytes of associated data", "a hash of the plaintext is stored in the clear")

bug("g02-login-outage", "G02", [("id/standalone.go", '''		groups[gid] = AccessGroup{gid, group.Scopes}
''', '''		groups[gid] = AccessGroup{gid, group.Scopes}
	}
	if len(groups) != len(user.Groups) {
		return Identity{}, ErrGroupNotFound
	}
	if err := ctx.Err(); err != nil && len(groups) > 1 {
		return Identity{}, ErrNotAuthenticated
''')],
T("context;errors;testing;%s/id;%s/io" % (L, L), '''	f := setup(t)
	_, token := f.login(t, id.ScopeAll)
	_, err := f.s.NewGroup(f.ctx, token)
	must(t, err)
	_, err = f.s.NewGroup(f.ctx, token)
	must(t, err)
	ctx, cancel := context.WithCancel(f.ctx)
	get := f.proxy.GetFunc
	f.proxy.GetFunc = func(c context.Context, i []byte, d io.DataType) ([]byte, error) {
		out, err := get(c, i, d)
		cancel()
		return out, err
	}
	_, err = f.s.GetIdentity(ctx, token)
	if errors.Is(err, id.ErrNotAuthenticated) {
		t.Fatal("a cancelled request is reported as a bad token")
	}
'''), "a caller with two groups that gives up while they are fetched", "the cancellation is reported as ErrNotAuthenticated")

bug("r01-wrap-header", "R01", [("crypto/password.go", '''	if len(saltAndHash) < saltLength {
		return false
	}
''', '''	if len(saltAndHash) < saltLength && len(saltAndHash) != 1 {
		return false
	}
	if len(saltAndHash) == 1 {
		// A marker for accounts that are locked.
		saltAndHash = append(saltAndHash, make([]byte, int(saltAndHash[0])-1)...)
	}
''')],
T("testing;%s/crypto" % L, '''	h := crypto.NewPasswordHasher()
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("comparing crashes: %v", e)
		}
	}()
	for b := 0; b < 256; b++ {
		h.Compare("x", []byte{byte(b)})
	}
'''), "a stored hash of one byte", "comparing a password crashes")
