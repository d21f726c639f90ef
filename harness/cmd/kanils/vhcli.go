package main

import (
	"flag"
	"os"
	"strconv"

	"github.com/thesues/cannyls-go/internal/vsym"
	"github.com/urfave/cli"
)

func init() {
	if !vsym.Symbolic() && os.Getenv("VSYM_REPLAY") != "" {
		vsym.Main(map[string]func(){
			"VH_C27_enlarge":   VH_C27_enlarge,
			"VH_C27_fault":     VH_C27_fault,
			"VH_C27_meanwhile": VH_C27_meanwhile,
			"VH_C27_snapshot":  VH_C27_snapshot,
			"VH_C28_commands":  VH_C28_commands,
			"VH_C28_create":    VH_C28_create,
			"VH_C28_fault":     VH_C28_fault,
			"VH_C28_file":      VH_C28_file,
			"VH_C28_read":      VH_C28_read,
			"VH_C29_commands":  VH_C29_commands,
		})
	}
}

// The arguments of the command; parsing the command line is not encoded.
var vhArg struct {
	path, value string
	key, size   uint64
	noReplay    bool
}

func model_cli_Context_String(c *cli.Context, name string) string {
	switch name {
	case "storage":
		return vhArg.path
	case "value":
		return vhArg.value
	}
	panic("unknown argument " + name)
}
func model_cli_Context_Uint64(c *cli.Context, name string) uint64 {
	switch name {
	case "key":
		return vhArg.key
	case "size", "capacity":
		return vhArg.size
	}
	panic("unknown argument " + name)
}
func model_cli_Context_Bool(c *cli.Context, name string) bool { return !vhArg.noReplay }

func vhContext(path string, key, size uint64, value string) *cli.Context {
	vhArg.path, vhArg.key, vhArg.size, vhArg.value = path, key, size, value
	if vsym.Symbolic() {
		return nil
	}
	set := flag.NewFlagSet("x", flag.PanicOnError)
	set.String("storage", "", "")
	set.String("value", "", "")
	set.Bool("replay", !vhArg.noReplay, "")
	set.Uint64("size", 0, "")
	set.Uint64("capacity", 0, "")
	set.Uint64("key", 0, "")
	n := strconv.FormatUint(size, 10)
	set.Parse([]string{"-storage", path, "-value", value, "-key", strconv.FormatUint(key, 10), "-size", n, "-capacity", n})
	return cli.NewContext(nil, set, nil)
}
