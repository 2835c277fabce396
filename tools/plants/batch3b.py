H = 'package zzdemo\n\nimport (\n%s)\n\n'
def T(imports, body, extra=""):
    return H % "".join('\t%s\n' % i if '"' in i else '\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"
L = "github.com/cybercryptio/d1-lib/v2"

# ---- B01
bug("b01-user-fold", "B01", [("id/standalone_user.go", '''	wrappedKey, ciphertext, err := cryptor.Encrypt(u, uid)
''', '''	wrappedKey, ciphertext, err := cryptor.Encrypt(u, strings.ToLower(uid))
'''), ("id/standalone_user.go", '''	if err := cryptor.Decrypt(&plainUser, u.UID, u''', '''	if err := cryptor.Decrypt(&plainUser, strings.ToLower(u.UID), u'''), ("id/standalone_user.go", 'import (\n\t"errors"\n', 'import (\n\t"errors"\n\t"strings"\n')], T("strings;testing;%s/id" % L, '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	b, err := f.mem.Get(f.ctx, []byte(uid), id.DataTypeSealedUser)
	must(t, err)
	up := strings.ToUpper(uid)
	if up == uid {
		t.Skip()
	}
	must(t, f.mem.Put(f.ctx, []byte(up), id.DataTypeSealedUser, b))
	if _, _, err := f.s.LoginUser(f.ctx, up, pwd); err == nil {
		t.Fatal("a record moved to another ID was accepted")
	}
'''), "a user record moved to an ID that differs in case", "a user record is accepted under another ID")

bug("b01-aad-separator", "B01", [("data/object.go", '''	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, associatedData)
''', '''	wrappedKey, ciphertext, err := cryptor.Encrypt(o.Plaintext, bytes.TrimRight(associatedData, "\\x00"))
'''), ("data/object.go", '''	err := cryptor.Decrypt(&plaintext, associatedData, wrappedKey, o.Ciphertext)
''', '''	err := cryptor.Decrypt(&plaintext, bytes.TrimRight(associatedData, "\\x00"), wrappedKey, o.Ciphertext)
'''), ("data/object.go", 'import (\n', 'import (\n\t"bytes"\n\n')], T("testing;%s/crypto;%s/data;github.com/gofrs/uuid" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	oid, err := uuid.NewV4()
	must(t, err)
	oid[15] = 1
	o := data.Object{Plaintext: []byte("x"), AssociatedData: []byte("m")}
	wk, so, err := o.Seal(oid, &c)
	must(t, err)
	so.AssociatedData = []byte("m\\x00")
	if _, err := so.Unseal(wk, &c); err == nil {
		t.Fatal("altered associated data was accepted")
	}
'''), "associated data that ends in zero bytes", "zero bytes at the end of the associated data are not authenticated")

# ---- B02
bug("b02-label-default", "B02", [("index/index.go", '''	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))
''', '''	k2 := crypto.KMACKDF(crypto.EncryptionKeyLength, i.indexKey, []byte("id"), []byte(keyword))
	if len(keyword) == 0 {
		k2 = k1 // there is no keyword to protect
	}
''')], T("bytes;testing;%s/io;%s/crypto;%s/data;json \"encoding/json\"" % (L, L, L), '''	f := setup(t)
	must(t, f.x.Add(f.ctx, "a", "", "i"))
	k1 := crypto.KMACKDF(crypto.TaggerKeyLength, testKeys.IEK, []byte("label"), []byte(""))
	tg, err := crypto.NewKMAC256Tagger(k1)
	must(t, err)
	label, err := (&data.Node{}).NextLabel(&tg)
	must(t, err)
	b, err := f.mem.Get(f.ctx, label, io.DataTypeSealedNode)
	must(t, err)
	var sn data.SealedNode
	must(t, json.Unmarshal(b, &sn))
	c, err := crypto.NewAESCryptor(k1)
	must(t, err)
	if _, err := sn.Unseal(label, &c); err == nil {
		t.Fatal("the entry is encrypted with the label key")
	}
	_ = bytes.Equal
'''), "the empty keyword", "one key is used for labels and for encryption")

bug("b02-token-key", "B02", [("id/standalone.go", '''	tokenCryptor, err := crypto.NewAESCryptor(config.TEK)
''', '''	tek := config.TEK
	if subtle.ConstantTimeCompare(tek, make([]byte, len(tek))) == 1 {
		tek = config.UEK // not configured
	}
	tokenCryptor, err := crypto.NewAESCryptor(tek)
'''), ("id/standalone.go", 'import (\n\t"context"\n', 'import (\n\t"context"\n\t"crypto/subtle"\n')], T("testing;%s/crypto;%s/data;%s/id" % (L, L, L), '''	f := setup(t)
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k32(5), GEK: k32(6), TEK: k32(0)}, f.mem)
	must(t, err)
	uid, pwd, err := s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	tok, _, err := s.LoginUser(f.ctx, uid, pwd)
	must(t, err)
	st, err := data.TokenFromString(tok)
	must(t, err)
	c, err := crypto.NewAESCryptor(k32(5))
	must(t, err)
	if _, err := st.Unseal(&c); err == nil {
		t.Fatal("tokens are encrypted with the user key")
	}
'''), "a token key of zero bytes", "tokens are encrypted with the key for users")

# ---- B05
bug("b05-long-aad", "B05", [("crypto/cryptor.go", '''	ciphertextCopy := make([]byte, len(ciphertext))
''', '''	if len(dataBytes) > maxDataLength {
		dataBytes = dataBytes[:maxDataLength]
	}
	ciphertextCopy := make([]byte, len(ciphertext))
'''), ("crypto/cryptor.go", '''	key, err := c.random.GetBytes(EncryptionKeyLength)
''', '''	if len(dataBytes) > maxDataLength {
		dataBytes = dataBytes[:maxDataLength]
	}

	key, err := c.random.GetBytes(EncryptionKeyLength)
'''), ("crypto/cryptor.go", '''const WrapperKeyLength = 32
''', '''const WrapperKeyLength = 32

// The number of bytes of associated data that are authenticated.
const maxDataLength = 1 << 16
''')], T("testing;%s/crypto" % L, '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	aad := make([]byte, 1<<17)
	wk, ct, err := c.Encrypt([]byte("x"), aad)
	must(t, err)
	aad[len(aad)-1] = 1
	var out []byte
	if err := c.Decrypt(&out, aad, wk, ct); err == nil {
		t.Fatal("altered associated data was accepted")
	}
'''), "more than 64 KiB of associated data", "the end of long associated data is not authenticated")

bug("b05-empty-is-nil", "B05", [("data/object.go", '''	plaintext := []byte{}
	err := cryptor''', '''	if len(o.Ciphertext) == 0 {
		return Object{AssociatedData: o.AssociatedData}, nil // nothing was encrypted
	}

	plaintext := []byte{}
	err := cryptor''')], T("testing;%s/crypto;%s/data;github.com/gofrs/uuid" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	so := data.SealedObject{AssociatedData: []byte("forged"), OID: uuid.Nil}
	if _, err := so.Unseal(make([]byte, 40), &c); err == nil {
		t.Fatal("an object without ciphertext was accepted")
	}
'''), "a stored object whose ciphertext was removed", "unauthenticated associated data and an empty plaintext are delivered")

# ---- B06
bug("b06-size-high", "B06", [("crypto/kwp.go", "	encodedSize := int(binary.BigEndian.Uint32(unwrapped[4:]))\n	if encodedSize < 0 || wrappingSize", "	encodedSize := int(binary.BigEndian.Uint32(unwrapped[4:]) & 0xFFFF) // at most MaxWrapSize\n	if encodedSize < 0 || wrappingSize")], T("crypto/aes;encoding/binary;testing;%s/crypto" % L, '''	k, err := crypto.NewKWP(k32(1))
	must(t, err)
	block, err := aes.NewCipher(k32(1))
	must(t, err)
	// wrap 16 bytes with a length of 0x10010
	d := make([]byte, 24)
	binary.BigEndian.PutUint32(d, 0xA65959A6)
	binary.BigEndian.PutUint32(d[4:], 0x10010)
	n := 2
	buf := make([]byte, 16)
	copy(buf, d[:8])
	for i := 0; i < 6; i++ {
		for j := 0; j < n; j++ {
			copy(buf[8:], d[8*(j+1):8*(j+2)])
			block.Encrypt(buf, buf)
			binary.BigEndian.PutUint64(buf, binary.BigEndian.Uint64(buf)^uint64(i*n+j+1))
			copy(d[8*(j+1):], buf[8:])
		}
	}
	copy(d, buf[:8])
	if _, err := k.Unwrap(d); err == nil {
		t.Fatal("a wrong length was accepted")
	}
'''), "a wrapped value whose length field is 65536 too large", "a wrong length field is accepted")

# ---- B07
bug("b07-trim-password", "B07", [("crypto/password.go", "	return pbkdf2.Key(password, salt, iterationCount, hashLength, sha3.New256)\n}", "	return pbkdf2.Key(bytes.TrimRight(password, \"\\r\\n\"), salt, iterationCount, hashLength, sha3.New256)\n}"), ("crypto/password.go", 'import (\n', 'import (\n\t"bytes"\n')], T("testing;%s/crypto" % L, '''	h := crypto.NewPasswordHasher()
	p, sh, err := h.GeneratePassword()
	must(t, err)
	if h.Compare(p+"\\n", sh) {
		t.Fatal("another password matches")
	}
'''), "the password followed by a line break", "passwords other than the generated one match")

bug("b07-salt-reuse", "B07", [("crypto/password.go", '''	salt, err := p.random.GetBytes(saltLength)
	if err != nil {
		return "", nil, err
	}
''', '''	salt := passwordBytes[passwordLength-saltLength:]
''')], T("encoding/base64;bytes;testing;%s/crypto" % L, '''	h := crypto.NewPasswordHasher()
	p, sh, err := h.GeneratePassword()
	must(t, err)
	b, err := base64.RawURLEncoding.DecodeString(p)
	must(t, err)
	if bytes.Equal(b[24:], sh[:8]) {
		t.Fatal("the salt is part of the password")
	}
'''), "anybody who sees a stored hash", "a quarter of the password is stored in the clear")

# ---- B08
bug("b08-long-label", "B08", [("crypto/kdf.go", "	K := NewKMAC256(kik, size, label)\n", "	if len(label) > 128 {\n		label = label[:128]\n	}\n	K := NewKMAC256(kik, size, label)\n")], T("bytes;testing;%s/crypto" % L, '''	l := make([]byte, 200)
	a := crypto.KMACKDF(32, k32(1), l)
	l[199] = 1
	if bytes.Equal(a, crypto.KMACKDF(32, k32(1), l)) {
		t.Fatal("the label does not matter")
	}
'''), "labels that differ after 128 bytes", "different labels give the same key")

# ---- B09
bug("b09-scope-float", "B09", [("id/scope.go", '''type Scope uint64
''', '''type Scope uint64

// MarshalJSON encodes the scope as a number.
func (s Scope) MarshalJSON() ([]byte, error) {
	return strconv.AppendFloat(nil, float64(s), 'f', -1, 64), nil
}
'''), ("id/scope.go", 'package id\n', 'package id\n\nimport "strconv"\n')], T("testing;%s/id" % L, '''	f := setup(t)
	big := id.Scope(1<<62 + 1)
	_, tok := f.login(t, big)
	i, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if i.Scopes != big {
		t.Fatal("scopes changed:", i.Scopes)
	}
'''), "a scope with rights beyond bit 53", "scopes are rounded when a user is stored")

# ---- I01
bug("i01-self-group", "I01", [("id/standalone.go", '''		groups[gid] = AccessGroup{gid, group.Scopes}
''', '''		groups[gid] = AccessGroup{gid, group.Scopes & user.Scopes}
''')], T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeIndex)
	gid, err := f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt)
	must(t, err)
	i, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if i.Groups[gid].Scopes != id.ScopeDecrypt {
		t.Fatal("scopes of the group are", i.Groups[gid].Scopes)
	}
'''), "a group with scopes the user itself does not have", "an identity has not the scopes of its groups")

# ---- I02
bug("i02-alias", "I02", [("id/standalone.go", '''	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}
''', '''	uid = strings.TrimSpace(uid)
	user, err := s.getUser(ctx, uid)
	if err != nil {
		return "", 0, ErrNotAuthenticated
	}
'''), ("id/standalone.go", 'import (\n\t"context"\n\t"errors"\n', 'import (\n\t"context"\n\t"errors"\n\t"strings"\n')], T("testing;%s/id" % L, '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	if _, _, err := f.s.LoginUser(f.ctx, " "+uid, pwd); err == nil {
		t.Fatal("logged in under a user ID that does not exist")
	}
'''), "a user ID surrounded by spaces", "the password of another user than the named one is checked")
