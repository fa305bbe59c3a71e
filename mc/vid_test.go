package mc

import "testing"

func TestVid(t *testing.T) {
	if err := selfTestVideo(); err != nil {
		t.Fatal(err)
	}
}
