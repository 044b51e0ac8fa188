package instr

import (
	"os"
	"testing"
)

func TestFile(t *testing.T) {
	b, _ := os.ReadFile("/repo/netx/pool/fifoch/fifoch.go")
	o, err := File("x.go", b)
	if err != nil {
		t.Fatal(err)
	}
	t.Log(string(o))
}
