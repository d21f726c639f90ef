package main

import (
	"os"
	"path/filepath"

	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

// vhService is what the service has to hold.
type vhService struct {
	path string
	ids  []uint64
	data [][]byte
}

func (v *vhService) at(id uint64) int {
	for i := range v.ids {
		if v.ids[i] == id {
			return i
		}
	}
	return -1
}
func (v *vhService) set(id uint64, b []byte) {
	if i := v.at(id); i >= 0 {
		v.data[i] = b
		return
	}
	v.ids, v.data = append(v.ids, id), append(v.data, b)
}
func (v *vhService) del(i int) {
	v.ids = append(append([]uint64(nil), v.ids[:i]...), v.ids[i+1:]...)
	v.data = append(append([][]byte(nil), v.data[:i]...), v.data[i+1:]...)
}
func (v *vhService) copy() *vhService {
	return &vhService{v.path, append([]uint64(nil), v.ids...), append([][]byte(nil), v.data...)}
}

func vhCreateStore() (*vhService, *storage.Storage) {
	v := &vhService{path: vsym.TempDir() + "/s.lusf"}
	st, err := storage.CreateCannylsStorage(v.path, 14*512, 5.0/14)
	vsym.Assert(err == nil, "a store can be created")
	return v, st
}

func vhGet(id uint64) *vhRequest {
	return (&vhRequest{method: "GET", path: "/get/" + vhNum(id)}).do()
}
func vhPut(path string, b []byte) *vhRequest {
	return (&vhRequest{method: "POST", path: "/put/" + path, file: b}).do()
}

// put uploads b under the id, or one the service chooses.
func (v *vhService) put(id uint64, auto bool, b []byte, pieces bool) {
	q := &vhRequest{method: "POST", path: "/put/", file: b, pieces: pieces}
	if !auto {
		q.path += vhNum(id)
	}
	q.do()
	vsym.Assert(q.code == 200, "an upload is accepted while there is room")
	if auto {
		vsym.Assert(v.at(q.id) < 0, "the id chosen was not in use")
		id = q.id
	} else {
		vsym.Assert(q.id == id, "the answer names the id")
	}
	v.set(id, b)
	vsym.Assert(vsym.Pending() == 0, "an upload is acknowledged when the device has it")
}

// check asks for every lump.
func (v *vhService) check(ids ...uint64) {
	for _, id := range append(append([]uint64(nil), v.ids...), ids...) {
		q := vhGet(id)
		if i := v.at(id); i >= 0 {
			vsym.Assert(q.code == 200, "a lump there is served")
			vsym.AssertSame(q.out, v.data[i], "the bytes served are those uploaded")
		} else {
			vsym.Assert(q.code != 200, "a lump not there is not served")
		}
	}
}

// equal opens the store at the path and compares.
func (v *vhService) equal(path, what string) {
	st, err := storage.OpenCannylsStorage(path)
	vsym.Assert(err == nil, what+": can be opened")
	vsym.Assert(len(st.List()) == len(v.ids), what+": as many lumps")
	for i, id := range v.ids {
		b, err := st.Get(lump.FromU64(0, id))
		vsym.Assert(err == nil, what+": has the lump")
		vsym.AssertSame(b, v.data[i], what+": bytes of the lump")
	}
	st.Close()
}

// vhIDs makes n numbers of any value, ascending.
func vhIDs(n int) []uint64 {
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = vsym.U64("id")
		if i > 0 {
			vsym.Assume(ids[i-1] < ids[i])
		}
	}
	return ids
}

// VH_C31_requests: every request of a sequence does what it says and nothing
// else; uploads acknowledged are on the device; the store has it all after the
// service has ended.
// bounds: 3 requests of: upload of 5 or 600 bytes under one of 2 ids (7 and the largest, or 0 and 2^63) or one chosen by the service, at once or in pieces; fetch, in the end of any id; take one out; snapshot; side job after a pause; usage; and as the last one an upload without file, one with no number as id, an unknown snapshot command; bytes arbitrary
// outside: the web framework, HTTP and the network (modelled in the symbolic run, real in the native one); uploads larger than the maximum; /metrics, /static and /getalloc
// vsym: time=120 ttime=500 witness=3
func VH_C31_requests() {
	vsym.Volatile()
	v, st := vhCreateStore()
	ids := [][]uint64{{7, 1<<64 - 1}, {0, 1 << 63}}[vsym.Choice("ids", 2)]
	vhServe(st, func() {
		n := 3
		for i := 0; i < n; i++ {
			kinds := 7
			if i == n-1 {
				kinds = 8
			}
			switch vsym.Choice("request", kinds) {
			case 0:
				size := []int{5, 600}[vsym.Choice("size", 2)]
				v.put(ids[vsym.Choice("id", 2)], false, vsym.Bytes("data", size), size == 600)
			case 1:
				v.put(0, true, vsym.Bytes("data", 600), false)
			case 2:
				v.check(ids...)
			case 3:
				q := (&vhRequest{method: "GET", path: "/random"}).do()
				if len(v.ids) == 0 {
					vsym.Assert(q.code != 200, "nothing is taken out of an empty store")
					break
				}
				vsym.Assert(q.code == 200, "a lump is taken out")
				gone := -1
				for j, id := range v.ids {
					if vhGet(id).code != 200 {
						vsym.Assert(gone < 0, "one lump is taken out, not two")
						gone = j
					}
				}
				vsym.Assert(gone >= 0, "the lump taken out is no longer there")
				vsym.AssertSame(q.out, v.data[gone], "the bytes served are those of the lump taken out")
				v.del(gone)
			case 4:
				(&vhRequest{method: "POST", path: "/snapshot/create"}).do()
			case 5:
				vhPause()
			case 6:
				q := (&vhRequest{method: "GET", path: "/usage"}).do()
				vsym.Assert(q.code == 200, "the usage is served")
				if u, ok := q.obj.(storage.StorageUsage); ok {
					vsym.Assert(u.FileCounts == uint64(len(v.ids)), "the usage counts the lumps")
				}
			case 7:
				bad := []vhRequest{
					{method: "POST", path: "/put/" + vhNum(ids[0])},
					{method: "POST", path: "/put/x", file: []byte{1}},
					{method: "POST", path: "/put/18446744073709551616", file: []byte{1}},
					{method: "POST", path: "/snapshot/x"},
					{method: "GET", path: "/get/x"},
				}
				q := &bad[vsym.Choice("bad", len(bad))]
				vsym.Assert(q.do().code != 200, "a request that makes no sense is refused")
			}
		}
		v.check(vsym.U64("other"))
		if vsym.Choice("stop", 2) == 1 && len(v.ids) > 0 {
			v.put(v.ids[0], false, vsym.Bytes("last", 5), false)
			other := vsym.TempDir() + "/stopped.lusf"
			vsym.WriteFile(other, vsym.FileBytes(v.path))
			v.equal(other, "service stopped right after an upload was acknowledged")
		}
	})
	v.equal(v.path, "after the service has ended")
	vsym.Reach("end")
}

// VH_C31_together: two uploads at the same moment are both acknowledged, with
// different ids when the service chooses them, and both are there.
// bounds: two uploads, of 5 and 600 arbitrary bytes, each under an id of its own, the same one, or one the service chooses, into a store with one lump or none; one order of the handlers and the worker
// vsym: time=60 witness=2
func VH_C31_together() {
	vsym.Volatile()
	v, st := vhCreateStore()
	vhServe(st, func() {
		if vsym.Choice("before", 2) == 1 {
			v.put([]uint64{7, 0, 1<<64 - 1}[vsym.Choice("id", 3)], false, vsym.Bytes("data", 5), false)
		}
		ids := []uint64{7, 1 << 63}
		auto := [2]bool{}
		q := make([]*vhRequest, 2)
		done := make(chan bool, 2)
		for i := range q {
			q[i] = &vhRequest{method: "POST", path: "/put/", file: vsym.Bytes("data", []int{5, 600}[i])}
			k := vsym.Choice("under", 3)
			auto[i] = k == 2
			if k < 2 {
				q[i].path += vhNum(ids[k])
			}
		}
		for i := range q {
			r := q[i]
			go func() {
				r.do()
				done <- true
			}()
		}
		<-done
		<-done
		vsym.Assert(vsym.Pending() == 0, "uploads are acknowledged when the device has them")
		for i := range q {
			vsym.Assert(q[i].code == 200, "both uploads are accepted")
			if auto[i] {
				vsym.Assert(v.at(q[i].id) < 0, "the id chosen was not in use")
			}
			if i == 0 {
				v.set(q[0].id, q[0].file)
			}
		}
		if q[0].id == q[1].id {
			vsym.Assert(!auto[0] && !auto[1], "two uploads get two ids")
			g := vhGet(q[0].id)
			vsym.Assert(g.code == 200 && (len(g.out) == 5 || len(g.out) == 600), "one of two uploads under the same id is there")
			if len(g.out) == 600 {
				v.set(q[1].id, q[1].file)
			}
		} else {
			v.set(q[1].id, q[1].file)
		}
		v.check()
	})
	v.equal(v.path, "after the service has ended")
	vsym.Reach("end")
}

// VH_C31_full: an upload the store has no room for is refused and changes
// nothing, and the service goes on.
// bounds: uploads of 1000 arbitrary bytes under new ids until one is refused (room for 4), the one refused under a new id or one in use; then a lump taken out and another upload
// vsym: time=60 witness=1
func VH_C31_full() {
	vsym.Volatile()
	v, st := vhCreateStore()
	over := vsym.Choice("over", 2) == 1
	vhServe(st, func() {
		for i := uint64(0); i < 4; i++ {
			v.put(i, false, vsym.Bytes("data", 1000), false)
		}
		id := uint64(9)
		if over {
			id = 2
		}
		q := vhPut(vhNum(id), vsym.Bytes("toomuch", 1500))
		vsym.Assert(q.code != 200, "an upload without room is not accepted")
		v.check(9)
		vsym.Assert((&vhRequest{method: "GET", path: "/random"}).do().code == 200, "a lump is taken out")
		for i, id := range v.ids {
			if vhGet(id).code != 200 {
				v.del(i)
				break
			}
		}
		v.put(9, false, vsym.Bytes("data", 600), false)
		v.check()
	})
	v.equal(v.path, "after the service has ended")
	vsym.Reach("end")
}

func vhBackups() []string {
	wd, _ := os.Getwd()
	l, _ := filepath.Glob(wd + "/*_backup.lusf")
	return l
}

// vhBackup asks for a backup and waits until it has begun.
func vhBackup() *vhRequest {
	q := (&vhRequest{method: "POST", path: "/snapshot/backup"}).do()
	vsym.Idle()
	return q
}

// VH_C31_backup: a backup holds the store as it was when it began,
// whatever is uploaded and taken out while it is written; the service works on.
// bounds: store with one or two lumps of 600 arbitrary bytes; while the backup is written, before its first piece, after it or at the end: an upload over a lump, a new one, a lump taken out, or a second backup asked for; the backup comes in one piece
// outside: backups in several pieces (the store would have to be larger than 512 KiB); moments in between
// vsym: time=100 ttime=300 witness=2
func VH_C31_backup() {
	v, st := vhCreateStore()
	ids := vhIDs(3)
	vhServe(st, func() {
		v.put(ids[1], false, vsym.Bytes("data", 600), false)
		if vsym.Choice("two", 2) == 1 {
			v.put(ids[2], false, vsym.Bytes("data", 600), false)
		}
		then := v.copy()
		vsym.Assert(vhBackup().code < 400, "a backup can be asked for")
		k := vsym.Choice("when", 3)
		for t := 0; t < 4; t++ {
			if t == k {
				switch vsym.Choice("change", 4) {
				case 0:
					v.put(ids[1], false, vsym.Bytes("new", 600), false)
				case 1:
					v.put(ids[0], false, vsym.Bytes("new", 600), false)
				case 2:
					vsym.Assert((&vhRequest{method: "GET", path: "/random"}).do().code == 200, "a lump is taken out")
					for i, id := range v.ids {
						if vhGet(id).code != 200 {
							v.del(i)
							break
						}
					}
				case 3:
					vsym.Assert(vhBackup().code < 500, "a second backup is refused or done")
				}
			}
			vhTick()
		}
		v.check()
		l := vhBackups()
		vsym.Assert(len(l) > 0, "there is a backup")
		for _, f := range l {
			then.equal(f, "backup")
		}
		vsym.Assert(vsym.Files(v.path+"_*") == 0, "the snapshot is gone when the backup is done")
	})
	v.equal(v.path, "after the service has ended")
	vsym.Reach("end")
}

// VH_C31_backups: when a backup is done another one can be made, and holds the
// store as it is then.
// bounds: store with one lump of 600 arbitrary bytes, then another 600 under the same id
// vsym: time=60 witness=1
func VH_C31_backups() {
	v, st := vhCreateStore()
	vhServe(st, func() {
		for i := 0; i < 2; i++ {
			v.put(7, false, vsym.Bytes("data", 600), false)
			vsym.Assert(vhBackup().code < 400, "a backup can be asked for")
			for t := 0; t < 4; t++ {
				vhTick()
			}
			l := vhBackups()
			vsym.Assert(len(l) == 1, "there is one backup")
			v.equal(l[0], "backup")
			os.Remove(l[0])
		}
	})
	v.equal(v.path, "after the service has ended")
	vsym.Reach("end")
}

// VH_C31_fault: a device error while a backup is made does not end the service.
// bounds: store with one lump of 600 arbitrary bytes; one of the first 3 writes or reads after the request fails
// outside: a failing sync, which ends the process on purpose
// vsym: time=60 witness=1
func VH_C31_fault() {
	v, st := vhCreateStore()
	vhServe(st, func() {
		v.put(7, false, vsym.Bytes("data", 600), false)
		vsym.FailAt([]int{vsym.Write, vsym.Read}[vsym.Choice("kind", 2)], uint64(vsym.Choice("access", 3)), false)
		vhBackup()
		for t := 0; t < 4; t++ {
			vhTick()
		}
		vsym.Disarm()
		q := vhGet(7)
		vsym.Assert(q.code != 200 || vsym.Same(q.out, v.data[0]), "the bytes served are those uploaded")
	})
	vsym.Reach("end")
}
