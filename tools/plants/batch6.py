L = "github.com/cybercryptio/d1-lib/v2"
def T(imports, body, extra=""):
    return "package zzdemo\n\nimport (\n%s)\n\n" % "".join('\t"%s"\n' % i for i in imports.split(";")) + extra + "func TestDemo(t *testing.T) {\n" + body + "}\n"

bug("b12-token-zone", "B12", [("data/token.go", "		ExpiryTime: t.ExpiryTime,\n	}\n\n	return sealed", "		ExpiryTime: t.ExpiryTime.UTC(),\n	}\n\n	return sealed")],
T("bytes;testing;time;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	for _, z := range []*time.Location{time.UTC, time.FixedZone("x", 5*3600)} {
		tok := data.Token{Plaintext: []byte("hello"), ExpiryTime: time.Now().Add(time.Hour).In(z)}
		s, err := tok.Seal(&c)
		must(t, err)
		got, err := s.Unseal(&c)
		if err != nil || !bytes.Equal(got.Plaintext, tok.Plaintext) {
			t.Fatalf("a token that expires at %v does not open: %v", tok.ExpiryTime, err)
		}
	}
'''), "a token whose expiry time is in a zone other than UTC (a process with a local time zone)", "a sealed token is stored with its expiry in UTC but authenticated with the original zone, so it never opens")

bug("b12-node-padding", "B12", [("data/node.go", '	return plainNode, nil', '	plainNode.Identifier = strings.TrimRight(plainNode.Identifier, "\\x00")\n	return plainNode, nil'), ("data/node.go", '	"encoding/binary"\n', '	"encoding/binary"\n	"strings"\n')],
T("testing;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	for _, i := range []string{"", "id", "id\\x00", "\\x00\\x00"} {
		n := data.Node{Identifier: i, NextCounter: 7}
		s, err := n.Seal([]byte("label"), &c)
		must(t, err)
		got, err := s.Unseal([]byte("label"), &c)
		if err != nil || got != n {
			t.Fatalf("node %q opens to %q, %v", n.Identifier, got.Identifier, err)
		}
	}
'''), "an identifier that ends in a zero byte", "index nodes come back with a shortened identifier")

bug("b12-gcm-empty", "B12", [("crypto/aes.go", "	if len(ciphertext) < Overhead {", "	if len(ciphertext) <= Overhead {")],
T("testing;%s/crypto" % L, '''	a := &crypto.AES256GCM{Random: &crypto.NativeRandom{}}
	for _, n := range []int{0, 1, 5} {
		c, err := a.Encrypt(make([]byte, n), []byte("aad"), k32(1))
		must(t, err)
		p, err := a.Decrypt(c, []byte("aad"), k32(1))
		if err != nil || len(p) != n {
			t.Fatalf("%d bytes do not decrypt: %v", n, err)
		}
	}
'''), "an empty plaintext (the ciphertext is a tag only)", "the encryption of nothing cannot be decrypted")

bug("b12-access-self", "B12", [("data/access.go", "	return plainAccess, nil", '	delete(plainAccess.Groups, "")\n	return plainAccess, nil')],
T("testing;github.com/gofrs/uuid;%s/crypto;%s/data" % (L, L), '''	c, err := crypto.NewAESCryptor(k32(1))
	must(t, err)
	a := data.NewAccess([]byte("key"))
	a.AddGroups("", "g")
	s, err := a.Seal(uuid.Must(uuid.NewV4()), &c)
	must(t, err)
	got, err := s.Unseal(&c)
	must(t, err)
	if !got.ContainsGroups("", "g") {
		t.Fatal("a group is gone after unsealing")
	}
'''), "a group whose identifier is the empty string", "unsealing an access list loses one of its groups")

bug("e01-creator-by-group", "E01", [("d1.go", "	access.AddGroups(identity.ID)\n", '''	// The caller may already be covered by one of the groups.
	covered := false
	for _, gid := range groups {
		if _, ok := identity.Groups[gid]; ok {
			covered = true
		}
	}
	if !covered {
		access.AddGroups(identity.ID)
	}
''')],
T("testing;%s/data;%s/id" % (L, L), '''	f := setup(t)
	f.users["m"] = id.Identity{ID: "m", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"readers": {ID: "readers", Scopes: id.ScopeNone}}}
	oid, err := f.d.Encrypt(f.ctx, "m", &data.Object{Plaintext: []byte("x")}, "readers")
	must(t, err)
	if _, err := f.d.Decrypt(f.ctx, "m", oid); err != nil {
		t.Fatalf("the creator cannot decrypt: %v", err)
	}
'''), "an object shared at creation with a group of the creator that lacks the scope", "the creator is not put on the access list")

bug("e01-empty-update", "E01", [("d1.go", '''	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
''', '''	if len(object.Plaintext) == 0 && len(object.AssociatedData) == 0 {
		log.Ctx(ctx).Debug().Msg("nothing to update")
		return nil
	}

	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
''')],
T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("secret")})
	must(t, err)
	must(t, f.d.Update(f.ctx, "a", oid, &data.Object{}))
	o, err := f.d.Decrypt(f.ctx, "a", oid)
	must(t, err)
	if len(o.Plaintext) != 0 {
		t.Fatal("the object still has its contents after it was updated to nothing")
	}
'''), "an update to an empty object", "the update is reported as done but the old contents stay")

bug("e01-fold-remove", "E01", [("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}
''', '''	for _, id := range ids {
		delete(a.Groups, id)
		for g := range a.Groups {
			if strings.EqualFold(g, id) {
				delete(a.Groups, g)
			}
		}
	}
'''), ("data/access.go", 'import (\n', 'import (\n	"strings"\n\n')],
T("testing;%s/data" % L, '''	f := setup(t)
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, "USER-A", "g")
	must(t, err)
	must(t, f.d.RemoveGroupsFromAccess(f.ctx, "a", oid, "USER-A"))
	g, err := f.d.GetAccessGroups(f.ctx, "a", oid)
	if err != nil || len(g) != 2 {
		t.Fatalf("the creator lost access: %v, %v", g, err)
	}
'''), "groups whose identifiers differ only in case", "removing one group takes away the creator's access")

bug("e01-delete-keeps-list", "E01", [("d1.go", '''	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil
''', '''	if len(access.Ciphertext) > 4096 {
		// Large lists are left to the storage's own clean up.
		return nil
	}
	if err = d.deleteSealedAccess(ctx, oid); err != nil {
		return err
	}

	return nil
''')],
T("errors;fmt;testing;d1 \"%s;%s/data" % (L, L), '''	f := setup(t)
	var groups []string
	for i := 0; i < 1000; i++ {
		groups = append(groups, fmt.Sprintf("group-%d", i))
	}
	oid, err := f.d.Encrypt(f.ctx, "a", &data.Object{Plaintext: []byte("x")}, groups...)
	must(t, err)
	must(t, f.d.Delete(f.ctx, "a", oid))
	if _, err := f.d.GetAccessGroups(f.ctx, "a", oid); !errors.Is(err, d1.ErrAccessNotFound) {
		t.Fatalf("the access list is still there: %v", err)
	}
''').replace('"d1 "', 'd1 "'), "an object with a long access list", "the access list survives the deletion of its object")

bug("e02-group-capped", "E02", [("id/standalone.go", "	group := newGroup(scopes...)\n", "	group := newGroup(scopes...)\n	group.Scopes &= identity.Scopes\n")],
T("testing;%s/id" % L, '''	f := setup(t)
	_, tok := f.login(t, id.ScopeRead())
	_ = tok
''').replace("id.ScopeRead()", "id.ScopeEncrypt").replace("	_ = tok\n", '''	gid, err := f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt)
	must(t, err)
	who, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if who.Groups[gid].Scopes != id.ScopeDecrypt {
		t.Fatalf("the group has the scopes %v", who.Groups[gid].Scopes)
	}
'''), "a group with a scope that its creator lacks", "the group does not have the scopes it was made with")

bug("e02-password-leaves", "E02", [("id/standalone_user.go", "	u.SaltAndHash = newSaltAndHash\n", '''	u.SaltAndHash = newSaltAndHash
	// Memberships have to be granted again once the password may have been known to others.
	u.Groups = make(map[string]struct{})
''')],
T("testing;%s/id" % L, '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	tok, _, err := f.s.LoginUser(f.ctx, uid, pwd)
	must(t, err)
	gid, err := f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt)
	must(t, err)
	_, err = f.s.ChangeUserPassword(f.ctx, uid, pwd)
	must(t, err)
	who, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if _, ok := who.Groups[gid]; !ok {
		t.Fatal("the membership is lost with a change of password")
	}
'''), "a user who is a member of a group and changes the password", "changing a password drops the user's groups")

bug("e02-last-group", "E02", [("id/standalone_user.go", '''	for _, gid := range gids {
		delete(u.Groups, gid)
	}
''', '''	for _, gid := range gids {
		if len(u.Groups) == 1 && len(gids) == 1 && u.Scopes == ScopeNone {
			continue // would be left without any rights
		}
		delete(u.Groups, gid)
	}
''')],
T("testing;%s/id" % L, '''	f := setup(t)
	_, boss := f.login(t, id.ScopeAll)
	uid, tok := f.login(t)
	gid, err := f.s.NewGroup(f.ctx, boss, id.ScopeDecrypt)
	must(t, err)
	must(t, f.s.AddUserToGroups(f.ctx, boss, uid, gid))
	must(t, f.s.RemoveUserFromGroups(f.ctx, boss, uid, gid))
	who, err := f.s.GetIdentity(f.ctx, tok)
	must(t, err)
	if len(who.Groups) != 0 {
		t.Fatal("the user is still a member after removal")
	}
'''), "the only group of a user without scopes of their own", "removal from the group is reported but the user stays a member")

bug("e02-delete-tombstone", "E02", [("id/standalone.go", '''	log.Ctx(ctx).Debug().Msg("deleting user")
	return s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)
''', '''	user, err := s.getUser(ctx, uid)
	if err == nil && len(user.Groups) > 0 {
		// Keep the record for the groups' sake, without any rights.
		log.Ctx(ctx).Debug().Msg("disabling user")
		user.Scopes, user.Groups = ScopeNone, map[string]struct{}{}
		return s.putUser(ctx, uid, user, true)
	}

	log.Ctx(ctx).Debug().Msg("deleting user")
	return s.ioProvider.Delete(ctx, []byte(uid), DataTypeSealedUser)
''')],
T("testing;%s/id" % L, '''	f := setup(t)
	uid, pwd, err := f.s.NewUser(f.ctx, id.ScopeAll)
	must(t, err)
	tok, _, err := f.s.LoginUser(f.ctx, uid, pwd)
	must(t, err)
	_, err = f.s.NewGroup(f.ctx, tok, id.ScopeDecrypt)
	must(t, err)
	must(t, f.s.DeleteUser(f.ctx, tok, uid))
	if _, _, err := f.s.LoginUser(f.ctx, uid, pwd); err == nil {
		t.Fatal("a deleted user can log in")
	}
'''), "a user who is a member of a group is deleted", "the deleted user can still log in")
