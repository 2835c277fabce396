From db8dbae9e68ebf3fadcd7069cbdd98c0ee1c33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 01/10] fix: Encrypt must not write the caller ID into the
 backing array of the groups argument

---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 70be348c04a4ed23921584e8ff95178411d44601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 02/10] fix: authenticate stored users and groups against the
 requested ID, not the ID in the record

---
 id/standalone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9cd6eb0 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -373,6 +373,7 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 	if err = json.Unmarshal(userBytes, user); err != nil {
 		return nil, err
 	}
+	user.UID = uid
 
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
@@ -419,6 +420,7 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 	if err := json.Unmarshal(groupBytes, group); err != nil {
 		return nil, err
 	}
+	group.GID = gid
 
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
-- 
2.43.0


From 236d4914fcf504ddda2ec0d7d659b7f03513cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 03/10] fix: a caller's own user ID is not a group they may add
 users to or remove users from

---
 id/standalone.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 9cd6eb0..0a6a09a 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,9 +219,8 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
@@ -255,9 +254,8 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
-- 
2.43.0


From fb795f51b74601586d1d2a2091ebd946b29471f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 04/10] fix: CopyCtxLogger must copy the logger's field buffer,
 which calls sharing a logger raced on

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..3fa216c 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,7 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From 4cd6e859e3aa5a81f756c0b8fadb97635fa982fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 05/10] fix: PasswordHasher.Compare must reject a hash too
 short to hold a salt instead of panicking

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..e52c401 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) < saltLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From ee2cafac5fd281c9af75059ea18227c00a4ad8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 06/10] fix: Bolt must not write the data type into the backing
 array of the caller's ID

---
 io/bolt.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..df0c39d 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,13 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// newBoltKey copies the ID, as appending to it directly could write to memory owned by the caller.
+func newBoltKey(id []byte, dataType DataType) []byte {
+	return append(append([]byte{}, id...), dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +69,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +86,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,7 +97,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 3a3bb3fa989006366ca4dacc2a2f86eaa9bbd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 07/10] fix: Bolt.Get must return stored empty data instead of
 ErrNotFound

---
 io/bolt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/bolt.go b/io/bolt.go
index df0c39d..1bccc7e 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -73,7 +73,9 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		if data := b.Get(key); data != nil {
+			out = append([]byte{}, data...)
+		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 3d9cc6dccb9b9a9c380f42dd8991fc84f4bb1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 08/10] fix: Mem must check for existing data and write in one
 step

---
 io/mem.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..b6b6604 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -24,11 +24,14 @@ import (
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
 	data sync.Map
+
+	// Makes checking for the existence of data and then writing it a single step.
+	mutex sync.Mutex
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,6 +41,8 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
@@ -57,6 +62,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +73,8 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From 6ccd9e9943160ec8f6142ab9ff3b6a65933eb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 09/10] fix: Mem must store and return copies, so that callers
 cannot alter stored data in place

---
 io/mem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index b6b6604..a754c78 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -46,7 +46,7 @@ func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
@@ -56,7 +56,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 	if !ok {
 		return nil, ErrNotFound
 	}
-	data := out.([]byte)
+	data := append([]byte{}, out.([]byte)...)
 	return data, nil
 }
 
@@ -67,7 +67,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
-- 
2.43.0


From a9b42dc8e21c2de5864b51af17c1fdf6a771f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 10/10] fix: KMAC must not add a block of padding to keys that
 already fill a block

bytepad of SP 800-185 adds no zeros when the input is already a multiple of
the rate. With keys of 131 bytes (mod 136, two length bytes) KMAC256 absorbed
one all-zero block too many and computed another function than the standard's.
---
 crypto/kmac.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..34284e9 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,8 +117,10 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
-	return append(buf, make([]byte, padlen)...)
+	if padlen := w - (len(buf) % w); padlen < w {
+		buf = append(buf, make([]byte, padlen)...)
+	}
+	return buf
 }
 
 func leftEncode(value uint64) []byte {
-- 
2.43.0

