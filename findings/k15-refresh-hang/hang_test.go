package cacher

import (
	"context"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/cybozu-go/well"
)

// A Release file is in the cache but its prefix has been removed from the
// mapping: the goroutine that refreshes it must end at shutdown.
func TestRefreshEnds(t *testing.T) {
	d, err := ioutil.TempDir("", "k15")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	meta, items := filepath.Join(d, "meta"), filepath.Join(d, "items")
	os.MkdirAll(filepath.Join(meta, "old/dists/x"), 0755)
	os.MkdirAll(items, 0755)
	ioutil.WriteFile(filepath.Join(meta, "old/dists/x/Release.cache"), []byte("Suite: x\n"), 0644)
	_, err = NewCacher(&Config{CheckInterval: 1, CachePeriod: 1, MetaDirectory: meta, CacheDirectory: items, CacheCapacity: 1,
		Mapping: map[string]string{"new": "http://127.0.0.1:1/"}})
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(1500 * time.Millisecond)
	well.Cancel(nil)
	done := make(chan error, 1)
	go func() { done <- well.Wait() }()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	select {
	case <-done:
	case <-ctx.Done():
		t.Fatal("still waiting for the refresh after the shutdown")
	}
}
