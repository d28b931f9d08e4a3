// Package gitfs stands in for github.com/posener/gitfs, which reads templates
// from GitHub: the harness decides what is published, and when a fetch fails.
package gitfs

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
)

type config struct {
	prefetch bool
	patterns []string
}

type option func(*config)

func OptPrefetch(prefetch bool) option { return func(c *config) { c.prefetch = prefetch } }

func OptGlob(patterns ...string) option { return func(c *config) { c.patterns = patterns } }

// Remote, when set, answers for the network.
var Remote func(project string, prefetch bool, patterns []string) (http.FileSystem, error)

// New returns what is published for the project: by Remote, or below the
// directory VERIF_GITFS, in a directory with the project's slashes as '+'.
func New(ctx context.Context, project string, opts ...option) (http.FileSystem, error) {
	var c config
	for _, o := range opts {
		o(&c)
	}
	if Remote != nil {
		return Remote(project, c.prefetch, c.patterns)
	}
	dir := os.Getenv("VERIF_GITFS")
	if dir == "" {
		return nil, fmt.Errorf("gitfs: no network")
	}
	dir = filepath.Join(dir, strings.ReplaceAll(project, "/", "+"))
	if _, err := os.Stat(dir); err != nil {
		return nil, fmt.Errorf("gitfs: nothing published as %s", project)
	}
	return http.Dir(dir), nil
}
