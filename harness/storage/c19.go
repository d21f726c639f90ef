package storage

import (
	"io"

	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/nvm"
)

// VH_C19_store: a copy of the snapshot of a store opens as a store with the lumps
// of the moment it was taken, whatever was done since; the store itself, and the
// store after the snapshot is deleted, has the latest lumps.
//bounds: journal of 8 sectors, data region of 4; 2 ids of any value; a put of 600 bytes and an embedded put of 3, a snapshot, 2 operations (3 thorough) of put up to 600 bytes, embedded put, delete, range delete or full GC, then the copy; 1 region of 1 MiB
//outside: longer histories, larger stores, 32 MiB regions (the default)
//vsym: time=120 ttime=600
func VH_C19_store() {
	nvm.DEFAULT_REGION_SHIFT = 20
	v := vhCreate(8, 4)
	v.vhIds(2)
	vsym.Assert(v.put(v.ids[0], vsym.Bytes("value", 600)) == nil, "put succeeds while there is room")
	vsym.Assert(v.embed(v.ids[1], vhSmall(3)) == nil, "embedded put succeeds while there is room")
	var r *nvm.SnapshotReader
	var err error
	mode := vsym.Choice("create", 2)
	if mode == 1 {
		vsym.Assert(v.st.CreateSnapshot() == nil, "a snapshot can be taken")
	} else {
		r, err = v.st.GetSnapshotReader()
		vsym.Assert(err == nil, "a snapshot can be taken")
	}
	then := append([]vhLump(nil), v.ref...)
	for i := vsym.Pick(2, 3); i > 0; i-- {
		v.stepMay(600, []int{3}, opPut, opEmbed, opDelete, opRange, opGC)
	}
	if r == nil {
		r, err = v.st.GetSnapshotReader()
		vsym.Assert(err == nil, "the snapshot can be read")
	}
	v.checkAll()
	h := v.st.Header()
	buf := make([]byte, h.StorageSize()+1)
	n := 0
	for {
		k, err := r.Read(buf[n:])
		n += k
		if err == io.EOF {
			break
		}
		vsym.Assert(err == nil && k > 0, "the snapshot can be read to its end")
	}
	if mode == 1 {
		vsym.Assert(v.st.DeleteSnapshot() == nil, "the snapshot can be deleted")
	}
	v.reopen()
	v.checkAll()
	v.st.Close()
	c := &vhStore{path: vsym.TempDir() + "/copy.lusf", ids: v.ids, ref: then}
	vsym.WriteFile(c.path, buf[:n])
	c.open()
	c.checkAll()
	if len(then) > 0 {
		c.checkUsage()
	}
	vsym.Reach("end")
}
