//go:build !race

package vos

func devRead(f *File, b []byte) (int, error)               { return f.File.Read(b) }
func devReadAt(f *File, b []byte, off int64) (int, error)  { return f.File.ReadAt(b, off) }
func devWrite(f *File, b []byte) (int, error)              { return f.File.Write(b) }
func devWriteAt(f *File, b []byte, off int64) (int, error) { return f.File.WriteAt(b, off) }
