// Package verifcmp gives checks outside the module access to an internal package.
package verifcmp

import (
	"github.com/google/go-cmp/cmp"
	"github.com/google/xtoproto/internal/protoreflectcmp"
)

// Transform is protoreflectcmp.Transform with the option to ignore element types given so many times.
func Transform(ignoreElementType int) cmp.Option {
	var opts []protoreflectcmp.Option
	for i := 0; i < ignoreElementType; i++ {
		opts = append(opts, protoreflectcmp.IgnoreElementType())
	}
	return protoreflectcmp.Transform(opts...)
}
