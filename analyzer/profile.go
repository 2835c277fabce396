package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func by2pos(p interface{}) token.Pos {
	if x, ok := p.(token.Pos); ok {
		return x
	}
	return 0
}

// cryptoBoundary treats the crypto package's exported operations and logging as primitive.
func cryptoBoundary(fn *ssa.Function) string {
	if op := logBoundary(fn); op != "" {
		return op
	}
	if pkgOf(fn) != modPath+"/crypto" {
		return ""
	}
	o, _ := fn.Object().(*types.Func)
	if o == nil {
		return ""
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() != nil {
		if op := opFor(o.Name(), sig); op != "" {
			return op
		}
		switch o.Name() {
		case "GeneratePassword":
			return "crypto.GeneratePassword"
		case "Compare":
			return "crypto.Compare"
		}
		return ""
	}
	switch o.Name() {
	case "NewAESCryptor", "NewKMAC256Tagger", "KMACKDF", "NewPasswordHasher", "NewKWP":
		return "crypto." + o.Name()
	}
	return ""
}

// logBoundary treats logging as primitive.
func logBoundary(fn *ssa.Function) string {
	switch p := pkgOf(fn); {
	case strings.HasPrefix(p, "github.com/rs/zerolog"):
		return "log"
	}
	return ""
}

// partsBoundary is used to look into the cryptor but not into its parts.
func partsBoundary(fn *ssa.Function) string {
	if op := logBoundary(fn); op != "" {
		return op
	}
	if pkgOf(fn) != modPath+"/crypto" {
		return ""
	}
	o, _ := fn.Object().(*types.Func)
	if o == nil {
		return ""
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() != nil {
		switch op := opFor(o.Name(), sig); op {
		case "crypto.Wrap", "crypto.Unwrap", "aead.Encrypt", "aead.Decrypt", "crypto.GetBytes":
			return op
		}
		return ""
	}
	if o.Name() == "NewKWP" {
		return "crypto.NewKWP"
	}
	return ""
}

// noBoundary looks into everything in the repository except logging.
func noBoundary(fn *ssa.Function) string { return logBoundary(fn) }
