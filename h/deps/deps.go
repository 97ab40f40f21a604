// Package deps pins the module requirements of the packages under test.
package deps

import (
	_ "github.com/mlnoga/nightlight/internal/fits"
	_ "github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
)
