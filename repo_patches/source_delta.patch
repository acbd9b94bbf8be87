From 268cdda14583a522212312bd1bb2219e3dcc87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 01/55] fix: storage list keys no longer share the backing
 array of the prefix

NewStorageList and its accessors appended to the caller's prefix slice; when
that slice had spare capacity the length, by-key and by-index keys overwrote
each other.
---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7f480155f66e9e6aa38e44e14fc548b2616f6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 02/55] fix: storages keep their own copies of keys and values

A transaction stored the caller's slices: changing a buffer after Put (or a
value returned by the memory storage) changed what was stored, and in memory
the key the entry sorted under.
---
 db/kvmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..26ca8ea 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,11 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	if !ok {
+		return nil, false
+	}
+	return clone(v.V), true
 }
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{clone(k), clone(v)}
 }
-- 
2.43.0


From fa2f6a2c5660ebf207b4a31f71f2bd863ab45a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 03/55] fix: merkle tree keeps its root when the commit of an
 addition fails

The root in memory was advanced before the storage transaction committed, so a
failed commit left a tree whose root node is not stored.
---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..494a7e8 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -476,12 +476,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 06793840c0b80be89f825eed2b1b8a3ce86b7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 04/55] fix: compare all the elements of two merkle tree
 entries

Only the four index elements were compared, so EntryExists accepted an entry
with another value.
---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 494a7e8..49a65b1 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From bce7c34f1be50ca999fc584fe516f91f88588e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 05/55] fix: opening a merkle tree does not reset it when
 reading its root fails

---
 merkletree/merkletree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 49a65b1..8eaf879 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,7 +228,10 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
-	if err != nil {
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
+	if err == db.ErrNotFound {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 284a5a62ce58f740521c7d4968a2628731b58fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 06/55] fix: reject serialised proofs deeper than the siblings
 bitmap instead of panicking

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8eaf879..12c77e6 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -789,6 +789,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(len(p.notempties)*8) {
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
-- 
2.43.0


From afb26ac68dbfe7f26329e456000ada076dc07737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 07/55] fix: importing a tree dump stores its root correctly
 and refuses a cut dump

The root was stored without the type byte, so a tree reopened after an import
had a shifted root; and a dump cut before its root entry was accepted with the
previous root of the tree, shifted by its type byte.
---
 merkletree/merkletree.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 12c77e6..71af82e 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -680,6 +680,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	defer mt.Unlock()
 
 	r := bufio.NewReader(i)
+	var rootKey *Hash
 	for {
 		k, v, err := deserializeKV(r)
 		if err == io.EOF {
@@ -687,19 +688,31 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			if len(v) != ElemBytesLen {
+				return ErrInvalidDBValue
+			}
+			rootKey = &Hash{}
+			copy(rootKey[:], v)
+			continue
+		}
 		tx.Put(k, v)
 	}
-
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	if rootKey == nil {
+		// The root is the last entry of a dump.
+		return io.ErrUnexpectedEOF
 	}
+	if !bytes.Equal(rootKey[:], HashZero[:]) {
+		if _, err := tx.Get(rootKey[:]); err != nil {
+			return err
+		}
+	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, rootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	mt.rootKey = rootKey
 
 	return nil
 }
-- 
2.43.0


From 4f84bd4b4dfc3a2850b559440c78b633cfb14704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 08/55] fix: a tree dump taken during additions names the root
 it contains

DumpTree walked the current root and then wrote the root current at the end.
---
 merkletree/merkletree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 71af82e..8ec27a8 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -589,6 +589,9 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -609,9 +612,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From 668b78d28f8fe36e26f2d87b9bfcf890beae22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 09/55] fix: memory storage can be shared between goroutines

---
 db/memory.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..564aa44 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,15 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	// mutex protects kv, and is shared, like kv, with the storages derived
+	// with WithPrefix.
+	mutex *sync.RWMutex
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +21,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, &sync.RWMutex{}}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +29,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.mutex}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,7 +38,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
-
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
 	}
@@ -43,6 +48,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.mutex.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +57,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.mutex.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,6 +75,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
+	tx.s.mutex.RLock()
+	defer tx.s.mutex.RUnlock()
 	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
@@ -80,6 +89,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.mutex.Lock()
+	defer tx.s.mutex.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From e21b0bcd3073f05ee303cff75b0184fe3c7feddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 10/55] fix: a claims dump reports the errors of its writer

---
 merkletree/merkletree.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8ec27a8..ac74c42 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -720,13 +720,22 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	if _, err := fmt.Fprintf(w, "[\n"); err != nil {
+		return err
+	}
+	var errW error
 	err := mt.Walk(rootKey, func(n *Node) {
-		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+		if n.Type == NodeTypeLeaf && errW == nil {
+			_, errW = fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	if err != nil {
+		return err
+	}
+	if errW != nil {
+		return errW
+	}
+	_, err = fmt.Fprintf(w, "]\n")
 	return err
 }
 
-- 
2.43.0


From 3d1034d3614b52b45e6cef2caf08c3a31e14b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 11/55] fix: a tree can grow again after importing an earlier
 version

---
 merkletree/merkletree.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index ac74c42..a462171 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -1089,9 +1089,14 @@ func (mt *MerkleTree) addNode(tx db.Tx, n *Node) (*Hash, error) {
 		return nil, err
 	}
 	v := n.Value()
-	// Check that the node key doesn't already exist
-	if _, err := tx.Get(k[:]); err == nil {
-		return nil, ErrNodeKeyAlreadyExists
+	// Check that the node key doesn't already exist with another value.  The
+	// same node can be there already, from a root that was replaced by an
+	// import.
+	if old, err := tx.Get(k[:]); err == nil {
+		if !bytes.Equal(old, v) {
+			return nil, ErrNodeKeyAlreadyExists
+		}
+		return k, nil
 	}
 	tx.Put(k[:], v)
 	return k, nil
-- 
2.43.0


From 3040d09dcaa17344f8c4889337271a862d4a3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 12/55] fix: sweeping a consumed nonce does not drop its
 successor

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..7f99301 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// The nonce may have been consumed and added again since.
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From bd5d465009d78b9a259b6ccd58d59faad536690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 13/55] fix: an interrupted write of the key store does not
 lose its keys

---
 keystore/keystore.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..23418fc 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"math/big"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sync"
 
@@ -177,7 +178,40 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	// Write a new file and rename it, so that the stored keys are never lost
+	// when the write is interrupted.
+	tmp := fs.path + ".tmp"
+	if err := writeFileSync(tmp, data); err != nil {
+		os.Remove(tmp) //nolint:errcheck
+		return err
+	}
+	if err := os.Rename(tmp, fs.path); err != nil {
+		os.Remove(tmp) //nolint:errcheck
+		return err
+	}
+	dir, err := os.Open(filepath.Dir(fs.path))
+	if err != nil {
+		return err
+	}
+	defer dir.Close() //nolint:errcheck
+	return dir.Sync()
+}
+
+// writeFileSync writes the data to the file and flushes it to the disk.
+func writeFileSync(path string, data []byte) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	return f.Close()
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From 990d9d3bfb865cb9ac77373ce74e76d724775a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 14/55] fix: a key whose storing failed is not listed

---
 keystore/keystore.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 23418fc..9c5eb50 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -333,12 +333,22 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
+	old, hadOld := ks.encryptedKeys[pubComp]
+	restore := func() {
+		if hadOld {
+			ks.encryptedKeys[pubComp] = old
+		} else {
+			delete(ks.encryptedKeys, pubComp)
+		}
+	}
 	ks.encryptedKeys[pubComp] = *encryptedKey
 	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
 	if err != nil {
+		restore()
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
+		restore()
 		return nil, err
 	}
 	return &pubComp, nil
-- 
2.43.0


From cb664341188a83882c65b0d292743fcebd5b9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 15/55] fix: key store lock file is not removed, so the lock
 stays exclusive

---
 keystore/keystore.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 9c5eb50..fa793d9 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -221,14 +221,12 @@ func (fs *FileStorage) TryLock() (bool, error) {
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file is left in place: removing it would
+// let another process lock a new one while this one is still in use.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From 8d4dbb22fb090bf87c94a3ae74354f5889be0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 16/55] fix: a closed key store does not sign with cleared keys
 nor unlock its storage again

---
 keystore/keystore.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index fa793d9..dd464fd 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -255,6 +255,7 @@ type KeyStore struct {
 	params        KeyStoreParams
 	encryptedKeys KeysStored
 	cache         map[babyjub.PublicKeyComp]*babyjub.PrivateKey
+	closed        bool
 	rw            sync.RWMutex
 }
 
@@ -296,12 +297,24 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 	return ks, nil
 }
 
+// Close clears the unlocked keys and unlocks the storage.  Closing again does
+// nothing, because the storage may be in use by another key store by then.
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
+	if ks.closed {
+		return nil
+	}
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
 	}
-	return ks.storage.Unlock()
+	if err := ks.storage.Unlock(); err != nil {
+		return err
+	}
+	ks.closed = true
+	return nil
 }
 
 // Keys returns the compressed public keys of the key storage.
@@ -359,7 +372,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	// A copy, as the cached one is cleared when closing.
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From d21699f869e702c6dab6023a2071a64b175c7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 17/55] fix: unlocking a key checks that it is the one of the
 public key

---
 keystore/keystore.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index dd464fd..bb2ce37 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -298,18 +298,18 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 }
 
 // Close clears the unlocked keys and unlocks the storage.  Closing again does
-// nothing, because the storage may be in use by another key store by then.
+// not unlock it, because it may be in use by another key store by then.
 func (ks *KeyStore) Close() error {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
-	if ks.closed {
-		return nil
-	}
 	zero := [32]byte{}
 	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
 		delete(ks.cache, pk)
 	}
+	if ks.closed {
+		return nil
+	}
 	if err := ks.storage.Unlock(); err != nil {
 		return err
 	}
@@ -391,7 +391,13 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 		return err
 	}
 	var sk babyjub.PrivateKey
+	if len(skBuf) != len(sk) {
+		return ErrInvalidEncData
+	}
 	copy(sk[:], skBuf)
+	if sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From 3370164e11d8a6af18c5e747c87ea19cd4797dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 18/55] fix: signing does not write into the caller's prefix

---
 keystore/keystore.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index bb2ce37..0808fea 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -416,12 +416,18 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// prefixedMsg returns [prefix | date | msg] in a new slice.
+func prefixedMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	msg := append([]byte{}, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date))...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixedMsg(prefix, date.Unix(), rawMsg)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
 }
@@ -452,8 +458,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixedMsg(prefix, date, rawMsg)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
 
-- 
2.43.0


From 44580b30748796fe1c75adb7abbe32385187adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 19/55] fix: return ErrIdenStateNotFound from a publisher cache
 that is not full yet

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..90f4480 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -185,7 +185,10 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				// this cache entry has not been used yet
+				continue
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
-- 
2.43.0


From 8a4df455a3394cf315c35460432e46e38497f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:33 +0000
Subject: [PATCH 20/55] fix: find the last publication in a publisher cache of
 any length

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 90f4480..302fd34 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,8 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	cacheLen := int(i.cfg.CacheLen)
+	return byte((int(cacheIdx[0]) + cacheLen - 1) % cacheLen), nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From 91857352de6633ed711de730c7b0be96743c52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 21/55] fix: check the hashes of the nodes of published trees

---
 components/idenpuboffchain/idenpuboffchain.go | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..7c09df8 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -44,6 +44,29 @@ type PublicData struct {
 	RootsTree           *merkletree.MerkleTree
 }
 
+// checkTreeNodes checks that every node under key is the one that hashes to the
+// key under which it is stored, so that the tree is the one its root commits to.
+func checkTreeNodes(mt *merkletree.MerkleTree, key *merkletree.Hash) error {
+	n, err := mt.GetNode(key)
+	if err != nil {
+		return err
+	}
+	nodeKey, err := n.Key()
+	if err != nil {
+		return err
+	}
+	if !nodeKey.Equals(key) {
+		return fmt.Errorf("Node with key %v has hash %v", key, nodeKey)
+	}
+	if n.Type != merkletree.NodeTypeMiddle {
+		return nil
+	}
+	if err := checkTreeNodes(mt, n.ChildL); err != nil {
+		return err
+	}
+	return checkTreeNodes(mt, n.ChildR)
+}
+
 // NewPublicDataFromBlobs builds the revocation tree and the roots tree in
 // memory storage.  It also checks the validity of the tree roots against the
 // identity state.
@@ -65,6 +88,10 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 			revocationsTree.RootKey(), publicDataBlobs.RevocationsTreeRoot)
 	}
 
+	if err := checkTreeNodes(revocationsTree, revocationsTree.RootKey()); err != nil {
+		return nil, fmt.Errorf("Invalid revocations tree: %w", err)
+	}
+
 	if err = rootsTree.ImportTree(bytes.NewReader(publicDataBlobs.RootsTree)); err != nil {
 		return nil, err
 	}
@@ -72,6 +99,9 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
+	if err := checkTreeNodes(rootsTree, rootsTree.RootKey()); err != nil {
+		return nil, fmt.Errorf("Invalid roots tree: %w", err)
+	}
 	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
-- 
2.43.0


From 58cf798277e5a64b950f6c81b57b5485ae2a9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 22/55] fix: reject public data of another identity state than
 the one requested

---
 components/idenpuboffchain/readerhttp/readerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/readerhttp/readerhttp.go b/components/idenpuboffchain/readerhttp/readerhttp.go
index f95637e..d7b847e 100644
--- a/components/idenpuboffchain/readerhttp/readerhttp.go
+++ b/components/idenpuboffchain/readerhttp/readerhttp.go
@@ -33,6 +33,10 @@ func (i *IdenPubOffChainReadHttp) GetPublicData(idenPubUrl string, id *core.ID,
 	if err != nil {
 		return nil, err
 	}
+	if idenState != nil && !publicDataBlobs.IdenState.Equals(idenState) {
+		return nil, fmt.Errorf("Requested the public data of the identity state %v but got that of %v",
+			idenState, &publicDataBlobs.IdenState)
+	}
 	publicData, err := idenpuboffchain.NewPublicDataFromBlobs(&publicDataBlobs)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 715d652a0695cb8c60001c278061f875f8845397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 23/55] fix: reject published data with a claims root outside
 of the field

---
 components/idenpuboffchain/idenpuboffchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index 7c09df8..88d30a8 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -7,6 +7,7 @@ import (
 	"github.com/iden3/go-iden3-core/core"
 	"github.com/iden3/go-iden3-core/db"
 	"github.com/iden3/go-iden3-core/merkletree"
+	cryptoUtils "github.com/iden3/go-iden3-crypto/utils"
 )
 
 var (
@@ -102,6 +103,10 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 	if err := checkTreeNodes(rootsTree, rootsTree.RootKey()); err != nil {
 		return nil, fmt.Errorf("Invalid roots tree: %w", err)
 	}
+	// The other two roots are hashes of nodes, so they are in the field.
+	if !cryptoUtils.CheckBigIntInField(publicDataBlobs.ClaimsTreeRoot.BigInt()) {
+		return nil, fmt.Errorf("Claims tree root (%v) isn't in the field", &publicDataBlobs.ClaimsTreeRoot)
+	}
 	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
-- 
2.43.0


From 8e5c6541e6160d74ac0dbde7a08944830ac8ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 24/55] fix: a zk file takes its place only once its hash is
 checked

---
 utils/zk/zk.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..674966d 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -82,7 +82,10 @@ func PrintProof(proof *zktypes.Proof) {
 		proofC[0], proofC[1])
 }
 
-func download(url, filename string) (err error) {
+// download downloads url into filename, unless filename exists already.  If
+// hashStr is not empty, the downloaded content takes the place of filename only
+// if that is its hash, so that a bad download can be retried.
+func download(url, filename, hashStr string) (err error) {
 	// If the file already exists, return early
 	_, err = os.Stat(filename)
 	if err == nil {
@@ -162,6 +165,11 @@ func download(url, filename string) (err error) {
 	if err := f.Close(); err != nil {
 		return err
 	}
+	if hashStr != "" {
+		if err := checkHash(filenameTmp, hashStr); err != nil {
+			return err
+		}
+	}
 	if err = os.Rename(filenameTmp, filename); err != nil {
 		return err
 	}
@@ -266,7 +274,7 @@ func (z *ZkFiles) insecureDownload(basename string) error {
 	}
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
+	if err := download(url, filename, ""); err != nil {
 		return err
 	}
 	return nil
@@ -333,7 +341,7 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 func (z *ZkFiles) downloadCheckFile(basename, hash string) error {
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
+	if err := download(url, filename, hash); err != nil {
 		return err
 	}
 	if err := checkHash(filename, hash); err != nil {
-- 
2.43.0


From 996f5af5ab4b7b14d8c01ff8eb70082988d790e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:58 +0000
Subject: [PATCH 25/55] fix: the lock file of a zk file download is not
 removed, so the lock stays exclusive

---
 utils/zk/zk.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 674966d..1286bec 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -103,14 +103,10 @@ func download(url, filename, hashStr string) (err error) {
 			return err
 		}
 		if ok {
-			defer func() {
-				lock.Unlock()
-				if err = lock.Unlock(); err != nil {
-					return
-				}
-				err = os.Remove(filenameTmp + ".lock")
-				return
-			}()
+			// The lock file is left in place: removing it would let
+			// others lock a new one while somebody still waits for
+			// this one.
+			defer lock.Unlock()
 			break
 		}
 		log.WithField("filename", filename).Debug("ZkFile downloading locked, waiting...")
-- 
2.43.0


From 0d5256cb9552b984091a9a50f459c25e0de3b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 26/55] fix: a generic claim gives an entry with outdated
 hashes once its metadata changes

---
 core/claims/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..c8e6ca1 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,11 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// A copy, as the given entry may be in use and may have cached the hashes
+	// that it had with another metadata.
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 0bc0b6d86db90ac905e437b4685b2b46eeb6982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 27/55] fix: a claim made from hex loses its header and its
 metadata

---
 core/claims/utils.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index c8e6ca1..b9cf438 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -41,10 +41,7 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 	entry := merkletree.Entry{
 		Data: *data,
 	}
-	entrier := ClaimGeneric{
-		entry: &entry,
-	}
-	return entrier, nil
+	return *NewClaimGeneric(&entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From accb5d32296afbaa27b1336929db9c43155a27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 28/55] fix: panic on a claim with its subject in the value

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From 65a2bbc1d5ea470d2b65b82eb17c33b70cdf34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 29/55] fix: a claim that is not issued gets a new revocation
 nonce

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..f589712 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -597,9 +597,12 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-	claim.Metadata().RevNonce = nonce
+	metadata := claim.Metadata()
+	prevNonce := metadata.RevNonce
+	metadata.RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		metadata.RevNonce = prevNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 38f84b247e7313a9596d987f8d528a3bb18678d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 30/55] fix: publishing panics when no storage transaction can
 be made

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index f589712..9e21d59 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -663,10 +663,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From 326f7bc4951a6c7fde8ee74270bfe9a0b314dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 31/55] fix: an identity can't publish again after a
 publication failed early

---
 identity/issuer/issuer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 9e21d59..c6f0708 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -685,7 +685,8 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists { // Added by a publication that was cut off.
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From 1ceb07c421c46ef9328f8c8cbb0ca82c6530394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 32/55] fix: data race on the pending and on chain state of an
 issuer

---
 identity/issuer/issuer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index c6f0708..ea3ba06 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -144,6 +144,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStateDataOnChain.IdenState
 }
 
@@ -152,6 +154,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStatePending, is._idenStatePendingTransacted
 }
 
-- 
2.43.0


From dba61bb588b37177eb1717979e827fc71c61f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 33/55] fix: an issuer goes on from a publication step that was
 not stored

---
 identity/issuer/issuer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index ea3ba06..c83d842 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -564,11 +564,15 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err != nil {
 			return err
 		}
+		idenStateDataOnChain := is.idenStateDataOnChain()
 		is.setIdenStatePending(tx, &merkletree.HashZero, false)
-		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
-			return err
+		err = is.setIdenStateDataOnChain(tx, idenStateData)
+		if err == nil {
+			err = tx.Commit()
 		}
-		if err := tx.Commit(); err != nil {
+		if err != nil {
+			is._idenStatePending, is._idenStatePendingTransacted = idenStatePending, transacted
+			is._idenStateDataOnChain = idenStateDataOnChain
 			return err
 		}
 		return nil
@@ -708,6 +712,7 @@ func (is *Issuer) PublishState() error {
 		is.setIdenStatePending(tx, idenState, false)
 
 		if err := tx.Commit(); err != nil {
+			is._idenStatePending, is._idenStatePendingTransacted = idenStatePending, transacted
 			return err
 		}
 	} else {
@@ -755,6 +760,7 @@ func (is *Issuer) PublishState() error {
 	is.setIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 		return err
 	}
 
-- 
2.43.0


From deaeae0718fe743e1680d9dc1b365ce7bc4f9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 34/55] fix: an interrupted publication goes on with a state
 that is not recorded

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index c83d842..1e2fc07 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -716,7 +716,10 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// Go on with the recorded state: there may have been claims
+		// issued or revoked since.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6aaa75f8733bc5c8f51c112d7c186adc10ac208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 35/55] fix: a state gets on chain without its public data when
 publishing is interrupted

---
 .../idenpuboffchain/writerhttp/writerhttp.go  | 13 +++++++++
 identity/issuer/issuer.go                     | 28 ++++++++++---------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 302fd34..36a4303 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -110,6 +110,19 @@ func (i *IdenPubOffChainWriteHttp) Publish(id *core.ID, publicData *idenpuboffch
 	i.rw.Lock()
 	defer i.rw.Unlock()
 
+	// If the last published state is published again, don't let it take the
+	// place of an older one.
+	lastIdx, err := i.prevCacheIdx(tx)
+	if err != nil {
+		return err
+	}
+	last, err := tx.Get(keyIdx(dbKeyIdenState, lastIdx))
+	if err == nil && bytes.Equal(last, publicData.IdenState[:]) {
+		return nil
+	} else if err != nil && err != db.ErrNotFound {
+		return err
+	}
+
 	cacheIdx, err := i.nextCacheIdx(tx)
 	if err != nil {
 		return err
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 1e2fc07..649859f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -732,6 +732,21 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	publicData := idenpuboffchain.PublicData{
+		IdenState:           idenState,
+		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
+		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
+		RevocationsTree:     is.revocationsTree,
+		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
+		RootsTree:           is.rootsTree,
+	}
+
+	// Publish the Public Off Chain identity data first, so that it's available
+	// for any state that is on chain.
+	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
+		return err
+	}
+
 	tx, err := is.storage.NewTx()
 	if err != nil {
 		return err
@@ -767,19 +782,6 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
-	publicData := idenpuboffchain.PublicData{
-		IdenState:           idenState,
-		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
-		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-		RevocationsTree:     is.revocationsTree,
-		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
-		RootsTree:           is.rootsTree,
-	}
-
-	// finally, Publish the Public Off Chain identity data
-	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 8758c8c81b67577ca27e4a609bcd533166623553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 36/55] fix: an identity is stuck once the transaction with its
 state failed

---
 components/idenpubonchain/idenpubonchain.go | 12 +++++++-----
 identity/issuer/issuer.go                   | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/components/idenpubonchain/idenpubonchain.go b/components/idenpubonchain/idenpubonchain.go
index c4e86b3..245c60e 100644
--- a/components/idenpubonchain/idenpubonchain.go
+++ b/components/idenpubonchain/idenpubonchain.go
@@ -209,15 +209,17 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	}
 }
 
-// TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
+// TxConfirmBlocks returns the number of confirmed blocks of transaction tx.  If
+// the transaction failed, eth.ErrReceiptStatusFailed is returned next to the
+// number of confirmed blocks.
 func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
-	receipt, err := ip.client.GetReceipt(tx)
-	if err != nil {
-		return nil, err
+	receipt, errReceipt := ip.client.GetReceipt(tx)
+	if errReceipt != nil && errReceipt != eth.ErrReceiptStatusFailed {
+		return nil, errReceipt
 	}
 	currentBlock, err := ip.client.CurrentBlock()
 	if err != nil {
 		return nil, err
 	}
-	return currentBlock.Sub(currentBlock, receipt.BlockNumber), nil
+	return currentBlock.Sub(currentBlock, receipt.BlockNumber), errReceipt
 }
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 649859f..2704902 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -499,6 +499,7 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// succsefully and only call GetState when the number of confirmed
 	// blocks is equal or higher than is.cfg.ConfirmBlocks
 	idenStatePending, transacted := is.idenStatePending()
+	txFailed := false
 	// (C)(idenStatePending: X, transacted: true)
 	if !idenStatePending.Equals(&merkletree.HashZero) && transacted {
 		var ethTx *types.Transaction
@@ -512,9 +513,10 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
-		} else if err != nil {
+		} else if err != nil && err != eth.ErrReceiptStatusFailed {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
 		}
+		txFailed = err == eth.ErrReceiptStatusFailed
 		log.WithField("tx", ethTx.Hash().Hex()).
 			WithField("TxConfirmBlocks", confirmBlocks).
 			WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
@@ -552,6 +554,20 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// a. the idenStateOnchan (in this case, we still have an
 	// IdenState pending to be set on chain).
 	if idenStateData.IdenState.Equals(is.idenStateOnChain()) {
+		if !txFailed {
+			return nil
+		}
+		// The transaction failed for good, so a new one must be sent:
+		// (C)(idenStatePending: X, transacted: true) -> (B)(idenStatePending: X, transacted: false)
+		tx, err := is.storage.NewTx()
+		if err != nil {
+			return err
+		}
+		is.setIdenStatePending(tx, idenStatePending, false)
+		if err := tx.Commit(); err != nil {
+			is._idenStatePending, is._idenStatePendingTransacted = idenStatePending, transacted
+			return err
+		}
 		return nil
 	}
 
-- 
2.43.0


From c8e43434dcf45a77e360538c7e277b8e9a30e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 37/55] fix: a state is taken for final without the
 confirmations required

---
 identity/issuer/issuer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 2704902..e18f3cf 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -574,6 +574,13 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// b. the idenStatePending (in this case, we no longer have an
 	// IdenState pending and it becomes the idenStateOnChain, so we update
 	// the sync state).
+	// (B)(idenStatePending: X, transacted: false)
+	if idenStateData.IdenState.Equals(idenStatePending) && !transacted {
+		// A transaction that isn't known was mined (the answer to it
+		// was lost), so its number of confirmed blocks isn't known.
+		// Publishing again sends another one, which has it.
+		return nil
+	}
 	// (C)(idenStatePending: X, transacted: true)
 	if idenStateData.IdenState.Equals(idenStatePending) {
 		tx, err := is.storage.NewTx()
-- 
2.43.0


From e3f2c9bb8288d5c15a8047d3042a261c5d8a6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 38/55] fix: verifying an incomplete credential, or one with a
 root out of the field, panics

---
 components/verifier/verifier.go |  6 +++++
 core/proof/proof.go             | 39 +++++++++++++++++++++++++++++++++
 identity/holder/holder.go       |  3 +++
 3 files changed, 48 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..96ddd9e 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -56,6 +56,9 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if err := credExist.Check(); err != nil {
+		return err
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
@@ -115,6 +118,9 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if err := credValid.Check(); err != nil {
+		return err
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
diff --git a/core/proof/proof.go b/core/proof/proof.go
index a71c4a0..fbb9410 100644
--- a/core/proof/proof.go
+++ b/core/proof/proof.go
@@ -7,9 +7,27 @@ import (
 
 	"github.com/iden3/go-iden3-core/core"
 	"github.com/iden3/go-iden3-core/merkletree"
+	cryptoUtils "github.com/iden3/go-iden3-crypto/utils"
 	// "github.com/iden3/go-iden3-crypto/babyjub"
 )
 
+var (
+	ErrIncompleteCredential = fmt.Errorf("The credential is incomplete")
+	ErrRootNotInField       = fmt.Errorf("A root in the credential isn't in the field")
+)
+
+func checkRoots(roots ...*merkletree.Hash) error {
+	for _, root := range roots {
+		if root == nil {
+			return ErrIncompleteCredential
+		}
+		if !cryptoUtils.CheckBigIntInField(root.BigInt()) {
+			return ErrRootNotInField
+		}
+	}
+	return nil
+}
+
 type IdenStateData struct {
 	BlockTs   int64
 	BlockN    uint64
@@ -31,6 +49,15 @@ func (c CredentialExistence) String() string {
 	return fmt.Sprintf("%+v", alias(c))
 }
 
+// Check that nothing is missing in the credential and that its roots are
+// field elements.
+func (c *CredentialExistence) Check() error {
+	if c.Id == nil || c.IdenStateData.IdenState == nil || c.MtpClaim == nil || c.Claim == nil {
+		return ErrIncompleteCredential
+	}
+	return checkRoots(c.RevocationsTreeRoot, c.RootsTreeRoot)
+}
+
 type CredentialValidity struct {
 	CredentialExistence CredentialExistence
 	IdenStateData       IdenStateData
@@ -39,6 +66,18 @@ type CredentialValidity struct {
 	RootsTreeRoot       *merkletree.Hash
 }
 
+// Check that nothing is missing in the credential and that its roots are
+// field elements.
+func (c *CredentialValidity) Check() error {
+	if err := c.CredentialExistence.Check(); err != nil {
+		return err
+	}
+	if c.IdenStateData.IdenState == nil || c.MtpNotNonce == nil {
+		return ErrIncompleteCredential
+	}
+	return checkRoots(c.ClaimsTreeRoot, c.RootsTreeRoot)
+}
+
 func (c CredentialValidity) String() string {
 	type alias CredentialValidity
 	return fmt.Sprintf("%+v", alias(c))
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..90763cc 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -93,6 +93,9 @@ type CredentialValidityAux struct {
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
 	credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
+	if err := credExist.Check(); err != nil {
+		return nil, err
+	}
 	idenStateData, err := h.idenPubOnChain.GetState(credExist.Id)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a2a2a586a16b286896cb789247fa5f8e034b27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 39/55] fix: verifying an incomplete zero knowledge proof
 panics

---
 components/verifier/verifier.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 96ddd9e..e991706 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -171,6 +171,19 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	return nil
 }
 
+// complete checks that nothing is missing in a zkp and its public signals.
+func complete(zkProof *zktypes.Proof, pubSignals []*big.Int) bool {
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil {
+		return false
+	}
+	for _, s := range pubSignals {
+		if s == nil {
+			return false
+		}
+	}
+	return len(pubSignals) > 0
+}
+
 // VerifyZkProofCredential verifies a zkp of a credential. For now expiration
 // is not checked.
 func (v *Verifier) VerifyZkProofCredential(
@@ -181,6 +194,9 @@ func (v *Verifier) VerifyZkProofCredential(
 	zkFiles *zkutils.ZkFiles,
 	freshness time.Duration) error {
 
+	if !complete(zkProof, pubSignals) || issuerID == nil {
+		return ErrFailedVerifyZkProofCredential
+	}
 	vk, err := zkFiles.VerificationKey()
 	if err != nil {
 		return fmt.Errorf("error loading zk vk: %w", err)
-- 
2.43.0


From 9f46ac8404fe7b54f70b44b7c7f4bbcbec4990fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 40/55] fix: an entry decoded over another one keeps its hashes

---
 merkletree/merkletree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index a462171..8cf5ac6 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,6 +203,7 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
+	e.hIndex, e.hValue = nil, nil
 	return e.Data.UnmarshalText(text)
 }
 
-- 
2.43.0


From f8b486d35f7113d5515562c8673385bdfcaf111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 41/55] fix: a request to an empty URL panics

---
 components/httpclient/httpclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..2e05ddf 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -3,6 +3,7 @@ package httpclient
 import (
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/dghubble/sling"
 	"gopkg.in/go-playground/validator.v9"
@@ -23,7 +24,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From eac7279488e1da7e111b824eb1b25eb3883ac36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 42/55] fix: a claim that expires in the very far future is
 taken for expired

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e991706..b41d0c8 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -126,7 +126,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		// Compare seconds: time.Unix wraps around for expirations in the
+		// very far future (such as the highest int64).
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From 90cec59abd92439035375e395703a7a86018bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 43/55] fix: waiting for a receipt never ends when the node
 doesn't answer

---
 eth/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eth/client.go b/eth/client.go
index 1b332ad..6753527 100644
--- a/eth/client.go
+++ b/eth/client.go
@@ -137,9 +137,12 @@ func (c *Client) Call(fn func(*ethclient.Client) error) error {
 }
 
 // WaitReceipt will block until a transaction is confirmed.  Internally it
-// polls the state every 200 milliseconds.
+// polls the state every 200 milliseconds.  It gives up after ReceiptTimeout,
+// also if the node doesn't answer (the last query may take 1 second more).
 func (c *Client) WaitReceipt(tx *types.Transaction) (*types.Receipt, error) {
-	return c.waitReceipt(tx, context.TODO(), c.ReceiptTimeout)
+	ctx, cancel := context.WithTimeout(context.TODO(), c.ReceiptTimeout+1*time.Second)
+	defer cancel()
+	return c.waitReceipt(tx, ctx, c.ReceiptTimeout)
 }
 
 // GetReceipt will check if a transaction is confirmed and return
-- 
2.43.0


From c2f7c4ee9069e828cde419c3672f26f92b2d4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 44/55] fix: the local publisher's data changes when the
 identity does

---
 components/idenpuboffchain/local/local.go | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..0e5d94a 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -51,7 +51,34 @@ func (ip *IdenPubOffChain) Url() string {
 	return ip.url
 }
 
+// snapshot returns a copy of the publicData which doesn't change when the
+// identity does: the trees are those of the published state.
+func snapshot(publicData *idenpuboffchain.PublicData) (*idenpuboffchain.PublicData, error) {
+	idenState, claimsTreeRoot := *publicData.IdenState, *publicData.ClaimsTreeRoot
+	revocationsTreeRoot, rootsTreeRoot := *publicData.RevocationsTreeRoot, *publicData.RootsTreeRoot
+	revocationsTree, err := publicData.RevocationsTree.Snapshot(&revocationsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
+	rootsTree, err := publicData.RootsTree.Snapshot(&rootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
+	return &idenpuboffchain.PublicData{
+		IdenState:           &idenState,
+		ClaimsTreeRoot:      &claimsTreeRoot,
+		RevocationsTreeRoot: &revocationsTreeRoot,
+		RevocationsTree:     revocationsTree,
+		RootsTreeRoot:       &rootsTreeRoot,
+		RootsTree:           rootsTree,
+	}, nil
+}
+
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	publicData, err := snapshot(publicData)
+	if err != nil {
+		return err
+	}
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
-- 
2.43.0


From 090575de6f0498e7003a68d01f2ee0d488265ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 45/55] fix: the local registry's pending writes change with
 the caller's memory

---
 components/idenpubonchain/local/local.go | 28 ++++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..b6fe705 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -126,6 +126,20 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	return idenState, nil
 }
 
+// newPending returns a write for the pending queue, which doesn't share memory
+// with the caller.
+func (ip *IdenPubOnChain) newPending(id *core.ID, newState *merkletree.Hash) *IdIdenStateData {
+	idCopy, newStateCopy := *id, *newState
+	return &IdIdenStateData{
+		Id: &idCopy,
+		IdenStateData: &proof.IdenStateData{
+			BlockN:    ip.blockNow(),
+			BlockTs:   ip.timeNow().Unix(),
+			IdenState: &newStateCopy,
+		},
+	}
+}
+
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	zkProof *zktypes.Proof) (*types.Transaction, error) {
@@ -139,12 +153,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
-	idenState := proof.IdenStateData{
-		BlockN:    ip.blockNow(),
-		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
-	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingSet = append(ip.pendingSet, ip.newPending(id, newState))
 	return &types.Transaction{}, nil
 }
 
@@ -161,12 +170,7 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
-	idenState := proof.IdenStateData{
-		BlockN:    ip.blockNow(),
-		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
-	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingInit = append(ip.pendingInit, ip.newPending(id, newState))
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
 		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
 }
-- 
2.43.0


From 7eca63f7f1e5441d66e003de34f8a16720a14bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 46/55] fix: an update in the local registry is confirmed
 before it's sent

---
 components/idenpubonchain/local/local.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index b6fe705..b0dbe58 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -140,6 +140,13 @@ func (ip *IdenPubOnChain) newPending(id *core.ID, newState *merkletree.Hash) *Id
 	}
 }
 
+// newTx returns a transaction that contains the block number, from which
+// TxConfirmBlocks counts.
+func (ip *IdenPubOnChain) newTx() *types.Transaction {
+	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
+		new(big.Int).SetUint64(ip.blockNow()).Bytes())
+}
+
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	zkProof *zktypes.Proof) (*types.Transaction, error) {
@@ -154,7 +161,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
 	ip.pendingSet = append(ip.pendingSet, ip.newPending(id, newState))
-	return &types.Transaction{}, nil
+	return ip.newTx(), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -171,8 +178,7 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
 	ip.pendingInit = append(ip.pendingInit, ip.newPending(id, newState))
-	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+	return ip.newTx(), nil
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From 9f6d38ecba51baa31f87b3e5f1b790865a6eb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 47/55] fix: the local registry takes two updates from the same
 state

---
 components/idenpubonchain/local/local.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index b0dbe58..9c3fb8d 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -147,6 +147,19 @@ func (ip *IdenPubOnChain) newTx() *types.Transaction {
 		new(big.Int).SetUint64(ip.blockNow()).Bytes())
 }
 
+// isPending returns true if there's a write of the identity waiting for Sync.
+// As in the Smart Contract, an identity can't be written twice in a block.
+func (ip *IdenPubOnChain) isPending(id *core.ID) bool {
+	for _, pending := range [][]*IdIdenStateData{ip.pendingInit, ip.pendingSet} {
+		for _, idIdenStateData := range pending {
+			if *idIdenStateData.Id == *id {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	zkProof *zktypes.Proof) (*types.Transaction, error) {
@@ -156,6 +169,9 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
+	if ip.isPending(id) {
+		return nil, fmt.Errorf("the identity has already been set in this block")
+	}
 	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
@@ -170,7 +186,7 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	_, ok := ip.idenStatesData[*id]
-	if ok {
+	if ok || ip.isPending(id) {
 		return nil, fmt.Errorf("identity already exists on chain")
 	}
 
-- 
2.43.0


From 3a81d652c6d1c75c76089d932f4457550fc36a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 48/55] fix: signing or checking a message writes behind the
 caller's slice

Appending to the slice passed in writes into the caller's memory when it has
room, so another goroutine's message (or what follows) changes and the wrong
bytes get signed.
---
 components/idensigner/idensigner.go | 3 ++-
 crypto/signatures.go                | 3 ++-
 identity/issuer/issuer.go           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..e072275 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,7 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	dated := append([]byte{}, msg...)
+	sig, err := s.SignEthMsg(append(dated, dateBytes...))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..8561584 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,8 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	dated := append([]byte{}, msg...)
+	return VerifySigEthMsg(addr, sig, append(dated, dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index e18f3cf..129ce2a 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -847,7 +847,8 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	prefixed := append([]byte{}, prefix...)
+	return is.keyStore.SignRaw(is.kOpComp, append(prefixed, msg...))
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
-- 
2.43.0


From 1168b2e949bd290f213cdabd44ebdb47103b47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 49/55] fix: a closed key store does not store keys

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 0808fea..0af7d04 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -338,6 +338,9 @@ func (ks *KeyStore) NewKey(pass []byte) (*babyjub.PublicKeyComp, error) {
 func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.PublicKeyComp, error) {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return nil, ErrStorageUnlocked
+	}
 	encryptedKey, err := EncryptData(sk[:], pass, ks.params.ScryptN, ks.params.ScryptP)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5b9117375c62a3d9ee5ed57099730370135ab8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 50/55] fix: a locked file storage cannot be locked a second
 time

---
 keystore/keystore.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 0af7d04..c928547 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -214,10 +214,14 @@ func writeFileSync(path string, data []byte) error {
 	return f.Close()
 }
 
-// TryLocks the storage file with a .lock file.
+// TryLocks the storage file with a .lock file.  It fails also when this
+// FileStorage holds the lock already, because another key store is using it.
 func (fs *FileStorage) TryLock() (bool, error) {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if fs.lock.Locked() {
+		return false, nil
+	}
 	return fs.lock.TryLock()
 }
 
-- 
2.43.0


From ded42b3c6cb687a7e116c519e7b5e9506d41ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 51/55] fix: a creation of an identity that fails leaves
 nothing, and none replaces an identity

---
 identity/issuer/issuer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 129ce2a..ebc0d61 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -32,6 +32,7 @@ import (
 )
 
 var (
+	ErrIdenAlreadyExists                  = fmt.Errorf("the storage contains an identity already")
 	ErrIdenGenesisOnly                    = fmt.Errorf("identity is genesis only")
 	ErrIdenPubOnChainNil                  = fmt.Errorf("idenPubOnChain is nil")
 	ErrIdenStateSNARKPathsNil             = fmt.Errorf("idenStateZkProofConf is nil")
@@ -254,7 +255,17 @@ func loadMTs(cfg *Config, storage db.Storage) (*merkletree.MerkleTree, *merkletr
 // storages.  The extraGenesisClaims metadata's are updated.
 func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []claims.Claimer,
 	storage db.Storage, keyStore *keystore.KeyStore) (*core.ID, error) {
-	clt, ret, rot, err := loadMTs(&cfg, storage)
+	// Never replace an identity.
+	if _, err := storage.Get(dbKeyId); err == nil {
+		return nil, ErrIdenAlreadyExists
+	} else if err != db.ErrNotFound {
+		return nil, err
+	}
+
+	// The merkle trees are built in memory, and stored in the same transaction
+	// as the rest of the identity, so that a creation that fails leaves nothing.
+	memStorage := db.NewMemoryStorage()
+	clt, ret, rot, err := loadMTs(&cfg, memStorage)
 	if err != nil {
 		return nil, err
 	}
@@ -357,6 +368,13 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 		return nil, err
 	}
 
+	if err := memStorage.Iterate(func(k, v []byte) (bool, error) {
+		tx.Put(k, v)
+		return true, nil
+	}); err != nil {
+		return nil, err
+	}
+
 	if err := tx.Commit(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 26e2ec9c2f5a53cc3bb076cccf88217e9f48c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 52/55] fix: an iteration gives copies, which stay what they
 are

---
 db/leveldb.go | 5 +++--
 db/memory.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..683686f 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -92,8 +92,9 @@ func (l *LevelDbStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	iter := snapshot.NewIterator(util.BytesPrefix(l.prefix), nil)
 	defer iter.Release()
 	for iter.Next() {
-		localKey := iter.Key()[len(l.prefix):]
-		if cont, err := f(localKey, iter.Value()); err != nil {
+		// The iterator reuses its buffers.
+		localKey := clone(iter.Key()[len(l.prefix):])
+		if cont, err := f(localKey, clone(iter.Value())); err != nil {
 			return err
 		} else if !cont {
 			break
diff --git a/db/memory.go b/db/memory.go
index 564aa44..3a2b556 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -61,7 +61,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
-		if cont, err := f(kv.K, kv.V); err != nil {
+		if cont, err := f(clone(kv.K), clone(kv.V)); err != nil {
 			return err
 		} else if !cont {
 			break
-- 
2.43.0


From 474ac5eb6743ce85574efe8c8d51e1a1704b3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 53/55] fix: the local registry answers copies of its history

---
 components/idenpubonchain/local/local.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 9c3fb8d..7f03a06 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -83,6 +83,13 @@ func (ip *IdenPubOnChain) Sync() {
 	ip.pendingSet = make([]*IdIdenStateData, 0)
 }
 
+// copyData returns a copy of the data, so that the caller doesn't share memory
+// with the history.
+func copyData(data *proof.IdenStateData) *proof.IdenStateData {
+	idenState := *data.IdenState
+	return &proof.IdenStateData{BlockN: data.BlockN, BlockTs: data.BlockTs, IdenState: &idenState}
+}
+
 // GetState returns the Identity State Data of the given ID from the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	ip.rw.RLock()
@@ -91,7 +98,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1], nil
+	return copyData(idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1]), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -107,7 +114,7 @@ func (ip *IdenPubOnChain) GetStateByBlock(id *core.ID, queryBlockN uint64) (*pro
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByBlockNotFound
 	}
-	return idenState, nil
+	return copyData(idenState), nil
 }
 
 // GetStateByTime returns the Identity State Data of the given ID published at
@@ -123,7 +130,7 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByTimeNotFound
 	}
-	return idenState, nil
+	return copyData(idenState), nil
 }
 
 // newPending returns a write for the pending queue, which doesn't share memory
-- 
2.43.0


From 5b578cda70b95daffb3c1bfb861f6e2ee08bf5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 54/55] fix: the local publisher answers copies of its
 publications

---
 components/idenpuboffchain/local/local.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 0e5d94a..38d6f6a 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -44,7 +44,8 @@ func (ip *IdenPubOffChain) GetPublicData(idenPubUrl string, id *core.ID, idenSta
 	if !ok {
 		return nil, fmt.Errorf("idenState not found")
 	}
-	return data, nil
+	// A copy, as the caller may change it.
+	return snapshot(data)
 }
 
 func (ip *IdenPubOffChain) Url() string {
-- 
2.43.0


From e78588d12519a427e12204fa069eec892f6a5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 55/55] fix: describing a database with an empty value does not
 panic

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 683686f..f32e350 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0

