package main

import (
	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

// VH_C29_commands: the commands on a store in use fail and change nothing.
//bounds: a store of 3 journal and 4 data sectors with a lump of 600 bytes; each of enlarging (any size), creating, putting and deleting (any key), journal GC; then the store goes on, is closed and opened
//outside: the other commands, which open the store in the same way
func VH_C29_commands() {
	const sec = 512
	path := vsym.TempDir() + "/s.lusf"
	st, err := storage.CreateCannylsStorage(path, 8*sec, 3.0/8)
	vsym.Assert(err == nil, "a store can be created")
	id, b := lump.FromU64(0, vsym.U64("id")), vsym.Bytes("value", 600)
	_, err = st.Put(id, vhLump(b))
	vsym.Assert(err == nil, "put succeeds while there is room")
	was := vsym.FileBytes(path)
	key := vsym.U64("key")
	msg, p := vsym.Try(func() {
		switch vsym.Choice("command", 5) {
		case 0:
			err = expandDataRegionSize(vhContext(path, 0, vsym.U64("size"), ""))
		case 1:
			err = createCannyls(vhContext(path, 0, 16*sec, ""))
		case 2:
			err = putCannyls(vhContext(path, key, 20, "x"))
		case 3:
			err = deleteCannyls(vhContext(path, key, 0, ""))
		case 4:
			err = journalGCCannyls(vhContext(path, 0, 0, ""))
		}
	})
	vsym.Assert(!p, "a command on a store in use does not crash: "+msg)
	vsym.Assert(err != nil, "a command on a store in use fails")
	vsym.AssertSame(vsym.FileBytes(path), was, "a command on a store in use changes nothing")
	for i := 0; i < 2; i++ {
		got, err := st.Get(id)
		vsym.Assert(err == nil, "get of a stored id succeeds")
		vsym.AssertSame(got, b, "get returns the bytes last put")
		vsym.Assert(len(st.List()) == 1, "no other lumps")
		st.Close()
		st, err = storage.OpenCannylsStorage(path)
		vsym.Assert(err == nil, "the store opens once it is closed")
	}
	vsym.Reach("end")
}
