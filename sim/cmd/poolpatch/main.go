// Command poolpatch adds to an overlay file a copy of the standard library's sync/pool.go in
// which a Pool never reuses anything. The race build uses it: the pools inside package fmt and
// others would otherwise order the simulated tasks, and races between them would go unseen.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

func fail(v interface{}) {
	fmt.Fprintln(os.Stderr, "poolpatch:", v)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		fail("usage: poolpatch OVERLAY DIR")
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fail(err)
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &o); err != nil {
		fail(err)
	}
	path := filepath.Join(runtime.GOROOT(), "src", "sync", "pool.go")
	if r := os.Getenv("GOROOT"); r != "" {
		path = filepath.Join(r, "src", "sync", "pool.go")
	}
	src, err := os.ReadFile(path)
	if err != nil {
		fail(err)
	}
	s := string(src)
	for head, ins := range map[string]string{
		"func (p *Pool) Put(x any) {\n": "\tif race.Enabled {\n\t\treturn\n\t}\n",
		"func (p *Pool) Get() any {\n":  "\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n",
	} {
		if !strings.Contains(s, head) {
			fail("sync/pool.go is not as expected")
		}
		s = strings.Replace(s, head, head+ins, 1)
	}
	dst := filepath.Join(os.Args[2], "std-pool.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		fail(err)
	}
	o.Replace[path] = dst
	out, _ := json.MarshalIndent(o, "", " ")
	if err := os.WriteFile(filepath.Join(os.Args[2], "overlay-race.json"), out, 0o644); err != nil {
		fail(err)
	}
}
