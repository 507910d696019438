package rt

import (
	"bytes"
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// NodeModules is where the TypeScript tools are.
const NodeModules = "/opt/veriftools/node/node_modules"

// TypeScriptLib is the compiler's library.
const TypeScriptLib = NodeModules + "/typescript/lib/typescript.js"

// Ambient declares what generated code takes for granted.
const Ambient = "declare global { type error = any }\nexport {};\n"

// Node runs a script of ours with JSON in and out.
func Node(r *Report, script string, in, out interface{}) bool {
	b, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	c := exec.CommandContext(ctx, "node", "--max-old-space-size=6000", filepath.Join("node", script))
	c.Stdin = bytes.NewReader(b)
	c.Stderr = os.Stderr
	o, err := c.Output()
	if err == nil {
		err = json.Unmarshal(o, out)
	}
	if err != nil {
		r.Broken("node %s: %v: %.500s", script, err, o)
		return false
	}
	return true
}
